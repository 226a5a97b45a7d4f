// A formatter plugin for the tools (C15, C17).
#include "plug.hpp"
#include <string.h>
#include <hogl/detail/ostrbuf.hpp>
#include <hogl/plugin/format.hpp>
namespace {
struct Fmt : hogl::format {
	std::string given; bool any; Fmt(const char *s) : given(s ? s : ""), any(s) { }
	void process(hogl::ostrbuf &out, const data &d) { std::string t = plug::render(d, any ? given.c_str() : 0); out.push_back((const uint8_t *) t.data(), t.size()); }
};
Fmt *made; unsigned n;
hogl::format *create(const char *s) { if (s && !strcmp(s, "refuse")) return 0; n++; return made = new Fmt(s); }
void release(hogl::format *f) { fprintf(stderr, "plugin released%s%s\n", f == made ? "" : " something else", n == 1 ? "" : " more than one"); delete f; }
}
hogl::plugin::format __hogl_plugin_format = { create, release };
