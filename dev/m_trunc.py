SO="internal/sequence_ops.h"
MUT=[
("P01","tr-scan",SO,[("    size_t s = i * block_size;","    size_t s = static_cast<unsigned int>(i * block_size);")],"V"),
("S03","tr-scan2",SO,[("    size_t s = i * block_size;","    int s = static_cast<int>(i * block_size);")],"V"),
("P02","tr-pack",SO,[("  size_t k = 0;\n  for (size_t i = 0; i < In.size(); i++)\n    if (Fl[i]) assign_uninitialized(Out[k++], In[i]);\n  return k;","  unsigned int k = 0;\n  for (size_t i = 0; i < In.size(); i++)\n    if (Fl[i]) assign_uninitialized(Out[k++], In[i]);\n  return k;")],"V"),
]
