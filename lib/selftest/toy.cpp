// the explorer explores a known tree completely, once each, and reports what is planted in it
#include "vf.hpp"
static void all() { int a = vf::choose(3), b = a == 1 ? 0 : vf::choose(2), c = vf::choose(4); vf::transition(); vf::state(vf::mix(a, b * 8 + c)); vf::outcome(a + b + c); }
static void violation() { int a = vf::choose(5), b = vf::choose(5); vf::transition(); VF_CHECK(a != 3 || b != 4, "planted", "a %d b %d", a, b); }
static void crash() { int a = vf::choose(4), b = vf::choose(3); vf::transition(); if (a == 2 && b == 1) raise(SIGSEGV); }
static void hang() { int a = vf::choose(3); vf::transition(); if (a == 1) for (;;) usleep(1000); }
static void setup() { vf::add("all", all); vf::add("violation", violation); vf::add("crash", crash); vf::add("hang", hang); }
VF_MAIN
