#pragma once
extern "C" { int __cilkrts_get_nworkers(); int __cilkrts_get_worker_number(); }
