// Stand-in for the header jrl-cmakemodules generates (absent offline).
#pragma once
#define PROXSUITE_NLP_DEPRECATED
#define PROXSUITE_NLP_DEPRECATED_MESSAGE(msg)
#define PROXSUITE_NLP_DEPRECATED_HEADER(msg)
