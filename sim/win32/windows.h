// The part of the Win32 API the Windows backend uses, for the simulator: see the Win32 section of sim.cpp.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <wchar.h>

typedef void          *HANDLE, *LPVOID, *PVOID, *HWND;
typedef void           VOID;
typedef int            BOOL, INT;
typedef uint64_t       ULONGLONG, DWORD64, ULONG64;
typedef int64_t        LONGLONG, LONG64;
typedef uint32_t       ULONG;
typedef char           CHAR;
typedef wchar_t        WCHAR;
typedef const wchar_t *LPCWSTR;
typedef uintptr_t      ULONG_PTR;
typedef uint32_t       DWORD, UINT;
typedef DWORD         *LPDWORD;
typedef int32_t        LONG, HRESULT;
typedef LONG          *LPLONG;
typedef uintptr_t      DWORD_PTR;
typedef size_t         SIZE_T;
typedef uint16_t       WORD;
typedef int16_t        SHORT;
typedef const char    *LPCSTR;
typedef const wchar_t *PCWSTR;
typedef struct SECURITY_ATTRIBUTES_ *LPSECURITY_ATTRIBUTES;
typedef DWORD        (*LPTHREAD_START_ROUTINE)(LPVOID);

#define TRUE  1
#define FALSE 0
#define INFINITE              0xFFFFFFFFu
#define WAIT_OBJECT_0         0u
#define WAIT_ABANDONED        0x80u
#define WAIT_ABANDONED_0      0x80u
#define WAIT_IO_COMPLETION    0xC0u
#define WAIT_TIMEOUT          258u
#define WAIT_FAILED           0xFFFFFFFFu
#define MAXIMUM_WAIT_OBJECTS  64
#define ERROR_SUCCESS           0u
#define ERROR_FILE_NOT_FOUND    2u
#define ERROR_PATH_NOT_FOUND    3u
#define ERROR_FILENAME_EXCED_RANGE 206u
#define ERROR_ACCESS_DENIED     5u
#define ERROR_INVALID_HANDLE    6u
#define ERROR_NOT_ENOUGH_MEMORY 8u
#define ERROR_INVALID_PARAMETER 87u
#define ERROR_ALREADY_EXISTS    183u
#define ERROR_NOT_OWNER         288u
#define ERROR_TOO_MANY_POSTS    298u
#define ERROR_NOT_FOUND         1168u
#define EVENT_ALL_ACCESS      0x1F0003u
#define MUTEX_ALL_ACCESS      0x1F0001u
#define SEMAPHORE_ALL_ACCESS  0x1F0003u
#define SYNCHRONIZE           0x100000u
#define ALL_PROCESSOR_GROUPS  0xffff
#define THREAD_PRIORITY_LOWEST        (-2)
#define THREAD_PRIORITY_BELOW_NORMAL  (-1)
#define THREAD_PRIORITY_NORMAL        0
#define THREAD_PRIORITY_ABOVE_NORMAL  1
#define THREAD_PRIORITY_HIGHEST       2
#define THREAD_PRIORITY_TIME_CRITICAL 15
#define THREAD_PRIORITY_IDLE          (-15)
#define THREAD_PRIORITY_ERROR_RETURN  0x7fffffff
#define CREATE_SUSPENDED            4u
#define STACK_SIZE_PARAM_IS_A_RESERVATION 0x10000u
#define CREATE_EVENT_MANUAL_RESET   1u
#define CREATE_EVENT_INITIAL_SET    2u
#define CREATE_MUTEX_INITIAL_OWNER  1u
#define STILL_ACTIVE                259u
#define MAXDWORD                    0xFFFFFFFFu
#define MAXLONG                     0x7fffffff
#define INVALID_HANDLE_VALUE        ((HANDLE)(intptr_t)-1)
#define WINAPI
#define MB_ABORTRETRYIGNORE 2
#define IDABORT  3
#define IDRETRY  4
#define IDIGNORE 5
#define VK_SHIFT 0x10
#define _TRUNCATE ((size_t)-1)

typedef union { int64_t QuadPart; } LARGE_INTEGER;

extern "C" {
DWORD  GetLastError(void);
void   SetLastError(DWORD);
BOOL   CloseHandle(HANDLE);
HANDLE CreateEventA(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL initial, LPCSTR name);
HANDLE OpenEventA(DWORD, BOOL, LPCSTR);
BOOL   SetEvent(HANDLE);
BOOL   ResetEvent(HANDLE);
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG initial, LONG max, LPCSTR name);
HANDLE OpenSemaphoreA(DWORD, BOOL, LPCSTR);
BOOL   ReleaseSemaphore(HANDLE, LONG count, LPLONG previous);
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL owned, LPCSTR name);
HANDLE OpenMutexA(DWORD, BOOL, LPCSTR);
BOOL   ReleaseMutex(HANDLE);
DWORD  WaitForSingleObject(HANDLE, DWORD);
DWORD  WaitForSingleObjectEx(HANDLE, DWORD, BOOL alertable);
DWORD  WaitForMultipleObjects(DWORD, const HANDLE *, BOOL all, DWORD);
HANDLE CreateThread(LPSECURITY_ATTRIBUTES, SIZE_T stack, LPTHREAD_START_ROUTINE, LPVOID, DWORD flags, LPDWORD id);
BOOL   TerminateThread(HANDLE, DWORD);
BOOL   CancelSynchronousIo(HANDLE);
DWORD  WaitForMultipleObjectsEx(DWORD, const HANDLE *, BOOL all, DWORD, BOOL alertable);
DWORD  GetThreadId(HANDLE);
DWORD  ResumeThread(HANDLE);
BOOL   GetExitCodeThread(HANDLE, LPDWORD);
HANDLE CreateEventExA(LPSECURITY_ATTRIBUTES, LPCSTR name, DWORD flags, DWORD access);
HANDLE CreateSemaphoreExA(LPSECURITY_ATTRIBUTES, LONG initial, LONG max, LPCSTR name, DWORD flags, DWORD access);
HANDLE CreateMutexExA(LPSECURITY_ATTRIBUTES, LPCSTR name, DWORD flags, DWORD access);
DWORD  GetTickCount(void);
BOOL   QueryPerformanceFrequency(LARGE_INTEGER *);
BOOL   QueryPerformanceCounter(LARGE_INTEGER *);
void   OutputDebugStringA(LPCSTR);
DWORD  GetCurrentProcessId(void);
HANDLE GetCurrentThread(void);
DWORD  GetCurrentThreadId(void);
HANDLE GetCurrentProcess(void);
BOOL   GetProcessAffinityMask(HANDLE, DWORD_PTR *process, DWORD_PTR *system);
DWORD_PTR SetThreadAffinityMask(HANDLE, DWORD_PTR);
BOOL   SetThreadPriority(HANDLE, int);
int    GetThreadPriority(HANDLE);
HRESULT SetThreadDescription(HANDLE, PCWSTR);
DWORD  GetActiveProcessorCount(WORD);
DWORD  GetCurrentProcessorNumber(void);
void   Sleep(DWORD);
DWORD  SleepEx(DWORD, BOOL alertable);
BOOL   SwitchToThread(void);
unsigned long long GetTickCount64(void);
int    MessageBoxA(HWND, LPCSTR text, LPCSTR caption, UINT);
SHORT  GetAsyncKeyState(int);
void   __debugbreak(void);
}
static inline int mbstowcs_s(size_t *converted, wchar_t *to, size_t room, const char *from, size_t most)
{
    size_t n = 0;
    while (from[n] && n + 1 < room && n < most) { to[n] = (unsigned char)from[n]; ++n; }
    to[n] = 0;
    *converted = n + 1;
    return from[n] ? 80 : 0;        // STRUNCATE
}
template <size_t N> static inline int mbstowcs_s(size_t *converted, wchar_t (&to)[N], const char *from, size_t most) { return mbstowcs_s(converted, to, N, from, most); }
