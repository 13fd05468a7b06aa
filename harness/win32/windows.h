// the parts of the Windows API the library uses, kept by a small system inside the check (see c48_win32.cpp)
#pragma once
#include "stddef.h"
typedef void* HANDLE; typedef int BOOL; typedef unsigned int DWORD; typedef int LONG; typedef long long LONGLONG; typedef size_t SIZE_T; typedef void* LPVOID; typedef void const* LPCVOID; typedef unsigned char BOOLEAN; typedef unsigned int UINT; typedef unsigned short WORD; typedef unsigned char BYTE; typedef wchar_t WCHAR; typedef wchar_t const* LPCWSTR; typedef char const* LPCSTR; typedef unsigned long long ULONGLONG; typedef unsigned int ULONG; typedef DWORD* LPDWORD;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define WINAPI
typedef union _LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER, *PLARGE_INTEGER;
typedef struct _SRWLOCK { void* Ptr; } SRWLOCK, *PSRWLOCK;
typedef struct _SECURITY_ATTRIBUTES SECURITY_ATTRIBUTES, *LPSECURITY_ATTRIBUTES;
#define SRWLOCK_INIT { 0 }
#define INVALID_HANDLE_VALUE ((HANDLE)(long long)-1)
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define GENERIC_EXECUTE 0x20000000u
#define GENERIC_ALL 0x10000000u
#define FILE_SHARE_READ 1
#define FILE_SHARE_WRITE 2
#define FILE_SHARE_DELETE 4
#define CREATE_NEW 1
#define CREATE_ALWAYS 2
#define OPEN_EXISTING 3
#define OPEN_ALWAYS 4
#define TRUNCATE_EXISTING 5
#define FILE_ATTRIBUTE_READONLY 1
#define FILE_ATTRIBUTE_NORMAL 0x80
#define FILE_FLAG_DELETE_ON_CLOSE 0x04000000
#define FILE_FLAG_SEQUENTIAL_SCAN 0x08000000
#define FILE_FLAG_RANDOM_ACCESS 0x10000000
#define PAGE_NOACCESS 1
#define PAGE_READONLY 2
#define PAGE_READWRITE 4
#define PAGE_WRITECOPY 8
#define PAGE_EXECUTE 0x10
#define PAGE_EXECUTE_READ 0x20
#define PAGE_EXECUTE_READWRITE 0x40
#define FILE_MAP_COPY 1
#define FILE_MAP_WRITE 2
#define FILE_MAP_READ 4
#define FILE_MAP_ALL_ACCESS 0xf001f
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
#define MEM_RESET 0x80000
#define INFINITE 0xffffffffu
#define WAIT_IO_COMPLETION 0xc0
#define NO_ERROR 0
extern "C"
{
    HANDLE CreateFileW(LPCWSTR, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD flags, HANDLE);
    BOOL CloseHandle(HANDLE);
    BOOL GetFileSizeEx(HANDLE, PLARGE_INTEGER);
    DWORD GetFileSize(HANDLE, LPDWORD);
    HANDLE CreateFileMappingW(HANDLE, LPSECURITY_ATTRIBUTES, DWORD protect, DWORD hi, DWORD lo, LPCWSTR);
    LPVOID MapViewOfFile(HANDLE, DWORD access, DWORD hi, DWORD lo, SIZE_T);
    BOOL UnmapViewOfFile(LPCVOID);
    LPVOID VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD);
    BOOL QueryPerformanceCounter(PLARGE_INTEGER);
    BOOL QueryPerformanceFrequency(PLARGE_INTEGER);
    ULONGLONG GetTickCount64();
    DWORD SleepEx(DWORD, BOOL);
    void Sleep(DWORD);
    void OutputDebugStringA(LPCSTR);
    DWORD GetLastError();
    void SetLastError(DWORD);
    void InitializeSRWLock(PSRWLOCK);
    void AcquireSRWLockExclusive(PSRWLOCK);
    void AcquireSRWLockShared(PSRWLOCK);
    void ReleaseSRWLockExclusive(PSRWLOCK);
    void ReleaseSRWLockShared(PSRWLOCK);
    BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK);
    BOOLEAN TryAcquireSRWLockShared(PSRWLOCK);
}
