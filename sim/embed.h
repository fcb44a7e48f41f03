#pragma once
#include "common.h"
namespace sim {
enum { EM_EMBED, EM_EMBED_EMPTY, EM_EMBED_WRONG, EM_DROP, EM_MOVE, EM_INTERP, EM_INTERP_BAD, EM_POINT, EM_HASH_NEW, EM_HASH_ADD, EM_HASH_GET, EM_COUNT };
struct EmbedVT { const char * name; void (*run)(const Trace &); };
void add_embed_type(const EmbedVT & v);
int embed_types(); const EmbedVT & embed_vt(int k);
}
