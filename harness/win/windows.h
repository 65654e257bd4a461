/* just enough of <windows.h> to build and watch the Windows branch of the random source:
 * the calls end in harness/m_win.c */
#ifndef KV_WINDOWS_H
#define KV_WINDOWS_H
#include <stddef.h>
#include <stdint.h>

#define WINAPI
#define CALLBACK
#define APIENTRY
#define TRUE 1
#define FALSE 0
typedef int BOOL, INT;
typedef unsigned char BOOLEAN, BYTE, UCHAR, *PBYTE, *LPBYTE;
typedef uint32_t DWORD, ULONG, UINT;
typedef int32_t LONG;
typedef uintptr_t ULONG_PTR, DWORD_PTR, UINT_PTR, SIZE_T;
typedef intptr_t INT_PTR, LONG_PTR;
typedef void VOID, *PVOID, *LPVOID, *HANDLE, *HMODULE, *HINSTANCE;
typedef const char *LPCSTR, *LPCTSTR;
typedef const unsigned short *LPCWSTR;
typedef INT_PTR (WINAPI *FARPROC)();
#define MAXDWORD 0xFFFFFFFFu
#define MAXULONG 0xFFFFFFFFu

extern HMODULE kv_load(LPCSTR name);
extern HMODULE kv_handle(LPCSTR name);
extern FARPROC kv_proc(HMODULE lib, LPCSTR name);
extern BOOL kv_free_lib(HMODULE lib);
#define LoadLibrary kv_load
#define LoadLibraryA kv_load
#define LoadLibraryEx(N, H, F) kv_load(N)
#define LoadLibraryExA(N, H, F) kv_load(N)
#define GetModuleHandle kv_handle
#define GetModuleHandleA kv_handle
#define GetProcAddress kv_proc
#define FreeLibrary kv_free_lib
#endif
