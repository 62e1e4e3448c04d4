// Stand-ins for the part of <windows.h> and of the C library of Windows that a logging library may call.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <ctime>

typedef uint32_t DWORD;
typedef uint16_t WORD;
typedef uint8_t BYTE;
typedef int BOOL;
typedef unsigned int UINT;
typedef int32_t LONG;
typedef void VOID;
typedef void* HANDLE;
typedef void* LPVOID;
typedef const void* LPCVOID;
typedef DWORD* LPDWORD;
typedef wchar_t WCHAR;
typedef WCHAR* LPWSTR;
typedef const WCHAR* LPCWSTR;
typedef WCHAR* LPWCH;
typedef const WCHAR* LPCWCH;
typedef char* LPSTR;
typedef const char* LPCSTR;
typedef const char* LPCCH;
typedef BOOL* LPBOOL;
typedef short SHORT;

#define WINAPI
#define __stdcall
#ifndef TRUE
    #define TRUE 1
    #define FALSE 0
#endif

#define INVALID_HANDLE_VALUE (reinterpret_cast<HANDLE>(static_cast<intptr_t>(-1)))
#define STD_INPUT_HANDLE (static_cast<DWORD>(-10))
#define STD_OUTPUT_HANDLE (static_cast<DWORD>(-11))
#define STD_ERROR_HANDLE (static_cast<DWORD>(-12))
#define HANDLE_FLAG_INHERIT 0x1
#define FILE_TYPE_UNKNOWN 0x0
#define FILE_TYPE_DISK 0x1
#define FILE_TYPE_CHAR 0x2
#define FILE_TYPE_PIPE 0x3

#define CP_ACP 0
#define CP_UTF8 65001
#define MB_PRECOMPOSED 0x1
#define MB_ERR_INVALID_CHARS 0x8
#define WC_ERR_INVALID_CHARS 0x80

#define ERROR_SUCCESS 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_PATH_NOT_FOUND 3
#define ERROR_ACCESS_DENIED 5
#define ERROR_INVALID_HANDLE 6
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_ALREADY_EXISTS 183
#define ERROR_NO_UNICODE_TRANSLATION 1113

#define FOREGROUND_BLUE 0x0001
#define FOREGROUND_GREEN 0x0002
#define FOREGROUND_RED 0x0004
#define FOREGROUND_INTENSITY 0x0008
#define BACKGROUND_BLUE 0x0010
#define BACKGROUND_GREEN 0x0020
#define BACKGROUND_RED 0x0040
#define BACKGROUND_INTENSITY 0x0080

struct COORD { SHORT X, Y; };
struct SMALL_RECT { SHORT Left, Top, Right, Bottom; };
struct CONSOLE_SCREEN_BUFFER_INFO {
    COORD dwSize;
    COORD dwCursorPosition;
    WORD wAttributes;
    SMALL_RECT srWindow;
    COORD dwMaximumWindowSize;
};
typedef CONSOLE_SCREEN_BUFFER_INFO* PCONSOLE_SCREEN_BUFFER_INFO;

extern "C" {
HANDLE GetStdHandle(DWORD);
BOOL GetConsoleMode(HANDLE, LPDWORD);
BOOL GetConsoleScreenBufferInfo(HANDLE, CONSOLE_SCREEN_BUFFER_INFO*);
BOOL SetConsoleTextAttribute(HANDLE, WORD);
BOOL WriteConsoleW(HANDLE, const void*, DWORD, LPDWORD, LPVOID);
DWORD GetFileType(HANDLE);
DWORD GetLastError();
void SetLastError(DWORD);
BOOL SetHandleInformation(HANDLE, DWORD, DWORD);
BOOL FlushFileBuffers(HANDLE);
int MultiByteToWideChar(UINT, DWORD, const char*, int, wchar_t*, int);
int WideCharToMultiByte(UINT, DWORD, const wchar_t*, int, char*, int, const char*, BOOL*);
DWORD GetCurrentProcessId();
DWORD GetCurrentThreadId();
void Sleep(DWORD);
}
