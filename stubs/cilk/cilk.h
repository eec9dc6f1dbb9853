// Analysis stub: the serial elision of Cilk.
#pragma once
#define cilk_spawn
#define cilk_sync ((void)0)
#define cilk_for for
