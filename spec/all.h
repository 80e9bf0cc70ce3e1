// Everything (precompiled once per configuration).
#pragma once
#include "ops.h"
#include "monad.h"
#include "cmp.h"
#include "rep.h"
#include "conv.h"
#include "facts.h"
