// Stand-in for the header jrl-cmakemodules generates (absent offline).
#pragma once
#define PROXSUITE_NLP_DO_PRAGMA(x) _Pragma(#x)
#define PROXSUITE_NLP_PRAGMA(x) PROXSUITE_NLP_DO_PRAGMA(x)
#define PROXSUITE_NLP_WARN(msg) ((void)0)
#define PROXSUITE_NLP_WARNING(msg)
#define PROXSUITE_NLP_WARNING_HEADER(msg)
