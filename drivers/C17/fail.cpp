// keep-bodies
#include "vf.hpp"
#include <string>
// the two functions every check of the library goes through, analysed with their bodies
IMPL(ass, int, bool c, int x) { vf_flag(96); etr::ass(c, "message"); return x; }
SPEC(ass, int, bool c, int x) { if (!c) vf_throw(); return x; }
IMPL(ass_v, int, const int *c, int x, int y) { vf_flag(96); etr::ass(x < y && *c != 0, std::string("message") + "more"); return x; }
SPEC(ass_v, int, const int *c, int x, int y) { if (!(x < y && *c != 0)) vf_throw(); return x; }
IMPL(ass_seq, int, int x, int y) { vf_flag(96); etr::ass(x > 0, "a"); etr::ass(y > x, "b"); return y - x; }
SPEC(ass_seq, int, int x, int y) { if (x <= 0) vf_throw(); if (y <= x) vf_throw(); return y - x; }
IMPL(warn, int, bool c, int x) { vf_flag(96); etr::warn(c, "message"); return x; }
SPEC(warn, int, bool c, int x) { if (!c) std::cerr << "x"; return x; }
IMPL(warn_seq, int, int x, int y) { vf_flag(96); etr::warn(x > 0, "a"); etr::warn(y > 0, "b"); return y - x; }
SPEC(warn_seq, int, int x, int y) { if (x <= 0) std::cerr << "x"; if (y <= 0) std::cerr << "x"; return y - x; }
IMPL(both, int, int x, int y) { vf_flag(96); etr::warn(x > 0, "a"); etr::ass(y > 0, "b"); return y - x; }
SPEC(both, int, int x, int y) { if (x <= 0) std::cerr << "x"; if (y <= 0) vf_throw(); return y - x; }
