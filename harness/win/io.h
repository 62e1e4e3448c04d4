#pragma once
#include "windows.h"

#include <share.h>

struct _stat {
    unsigned short st_mode;
    long st_size;
};
struct _stat64 {
    unsigned short st_mode;
    long long st_size;
};
#define _S_IFDIR 0x4000
#define _S_IFREG 0x8000

extern "C" {
int _wstat(const wchar_t*, struct _stat*);
int _wstat64(const wchar_t*, struct _stat64*);
int _waccess(const wchar_t*, int);
int _wmkdir(const wchar_t*);
int _wremove(const wchar_t*);
int _wrename(const wchar_t*, const wchar_t*);
FILE* _wfopen(const wchar_t*, const wchar_t*);
FILE* _wfsopen(const wchar_t*, const wchar_t*, int);
int _fileno(FILE*);
int _isatty(int);
intptr_t _get_osfhandle(int);
long _filelength(int);
long long _filelengthi64(int);
int localtime_s(struct tm*, const time_t*);
int gmtime_s(struct tm*, const time_t*);
}
