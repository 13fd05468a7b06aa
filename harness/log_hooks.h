// CE_USER_INCLUDE for harnesses that capture log and error records
#pragma once
void cap_log(int level, int argc, char const* argv[][2]);
bool cap_error(int level, int argc, char const* argv[][2]);
#define CE_USER_LOG_HOOK(LEVEL, ARGC, ...) ::cap_log(LEVEL, ARGC, __VA_ARGS__)
#define CE_USER_ERROR_HOOK(LEVEL, ARGC, ...) ::cap_error(LEVEL, ARGC, __VA_ARGS__)
