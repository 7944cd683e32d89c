/* access to the layout interface of a mapping, which applications and backends use */
#include "laik-internal.h"
unsigned int simnode_pack(Laik_Mapping* m, Laik_Range* r, Laik_Index* i, char* buf, unsigned int size) { return m->layout->pack(m, r, i, buf, size); }
unsigned int simnode_unpack(Laik_Mapping* m, Laik_Range* r, Laik_Index* i, char* buf, unsigned int size) { return m->layout->unpack(m, r, i, buf, size); }
unsigned long long simnode_stride(Laik_Mapping* m, int d) { return laik_layout_is_lex(m->layout) ? laik_layout_lex_stride(m->layout, m->layoutSection, d) : 0; }
int simnode_section(Laik_Mapping* m, Laik_Index* i) { int s = m->layout->section(m->layout, i); return s < 0 ? -1 : m->layout->mapno(m->layout, s); }
const char* simnode_describe(Laik_Mapping* m) { return m->layout->describe(m->layout); }
