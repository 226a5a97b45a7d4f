// What the formatter plugin says about a record: everything a formatter can see of it.
#pragma once
#include <stdio.h>
#include <string>
#include <hogl/area.hpp>
#include <hogl/detail/args.hpp>
#include <hogl/detail/format.hpp>
#include <hogl/detail/record.hpp>
namespace plug {
inline std::string render(const hogl::format::data &d, const char *given)
{
	const hogl::record *q = d.record; char b[200]; std::string o;
	snprintf(b, sizeof(b), "%llu %llu ", (unsigned long long) (uint64_t) q->timestamp, (unsigned long long) q->seqnum); o += b; o += d.ring_name; o += '|'; o += q->area ? q->area->name() : "INVALID"; o += '|'; o += q->area ? q->area->section_name(q->section) : "INVALID"; o += '|'; o += given ? given : "none";
	for (unsigned i = 0; i < 16; i++) {
		unsigned t = q->get_arg_type(i), len = 0; const uint8_t *p = 0; b[0] = 0; bool text = false;
		if (t == hogl::arg::NONE) break;
		if (t == hogl::arg::UINT32) snprintf(b, sizeof(b), " u%u", q->get_arg_val32(i));
		else if (t == hogl::arg::INT32) snprintf(b, sizeof(b), " i%d", (int) q->get_arg_val32(i));
		else if (t == hogl::arg::CSTR || t == hogl::arg::XDUMP || t == hogl::arg::RAW) { p = q->get_arg_data(i, len); text = true; }
		else if (t == hogl::arg::GSTR) { p = (const uint8_t *) q->get_arg_val64(i); if (!p) p = (const uint8_t *) "null"; len = std::string((const char *) p).size(); text = true; }
		else snprintf(b, sizeof(b), " %c%llx", t == hogl::arg::UINT64 ? 'U' : t == hogl::arg::INT64 ? 'I' : t == hogl::arg::DOUBLE ? 'D' : t == hogl::arg::POINTER ? 'P' : '?', (unsigned long long) q->get_arg_val64(i));
		o += b; if (!text) continue;
		o += t == hogl::arg::XDUMP ? " x<" : t == hogl::arg::RAW ? " r<" : " s<";
		for (unsigned k = 0; k < len; k++) { if (p[k] >= 32 && p[k] < 127 && p[k] != '>' && p[k] != '\\') o += p[k]; else { snprintf(b, sizeof(b), "\\%02x", p[k]); o += b; } }
		o += '>';
	}
	return o + "\n";
}
}
