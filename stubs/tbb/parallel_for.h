#pragma once
#include <tbb/plint_stub.h>
