#pragma once
#include "cusolver_emul.h"
