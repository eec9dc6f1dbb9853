#include "core.h"
#include "llvm/Support/raw_ostream.h"
using namespace plint;
// debugging aid: prepare and print drv_* functions (filter with ONLY=, keep callees with KEEP=regex)
#include "llvm/Support/Regex.h"
RULE(dump) {
  Regex re(getenv("KEEP") ? getenv("KEEP") : "^$");
  for (auto& F : M) if (F.getName().starts_with("drv_")) {
    if (getenv("ONLY") && F.getName() != getenv("ONLY")) continue;
    PrepOptions o; if (getenv("LOOPS")) o.loops = true;
    o.keep = [&](const Function& f) { return re.match(dem(&f)); };
    prepare(F, o); F.print(errs()); }
}
