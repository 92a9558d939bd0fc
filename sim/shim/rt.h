#pragma once
#include "../abi.h"
extern "C" {
extern const SimApi *A;
extern int g_rank;
extern SimHot g_hot;
}
