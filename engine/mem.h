// Copy-on-write byte memory with symbolic bytes.  Addresses are (object id << 32) + offset.
#pragma once
#include "expr.h"
#include <cstdlib>
#include <vector>

struct SymB {
	E e;
	u64 idx;
};
enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_EXC };
struct Obj {
	int rc;
	ObjKind kind;
	bool ro, alive;
	u64 id, size;
	uint8_t* data;
	SymB* sym;
	const void* site;
	static Obj* make(u64 id, u64 size, ObjKind k, uint8_t fill)
	{
		Obj* o = (Obj*)malloc(sizeof(Obj));
		o->rc = 1;
		o->kind = k;
		o->ro = false;
		o->alive = true;
		o->id = id;
		o->size = size;
		o->data = (uint8_t*)malloc(size ? size : 1);
		memset(o->data, fill, size);
		o->sym = nullptr;
		o->site = nullptr;
		return o;
	}
	Obj* clone() const
	{
		Obj* o = (Obj*)malloc(sizeof(Obj));
		*o = *this;
		o->rc = 1;
		o->data = (uint8_t*)malloc(size ? size : 1);
		memcpy(o->data, data, size);
		if (sym) {
			o->sym = (SymB*)malloc(size * sizeof(SymB));
			memcpy(o->sym, sym, size * sizeof(SymB));
		}
		return o;
	}
	static void unref(Obj* o)
	{
		if (o && --o->rc == 0) {
			free(o->data);
			free(o->sym);
			free(o);
		}
	}
	void needSym()
	{
		if (!sym)
			sym = (SymB*)calloc(size ? size : 1, sizeof(SymB));
	}
	bool rangeSym(u64 off, u64 n) const
	{
		if (!sym)
			return false;
		for (u64 i = 0; i < n; ++i)
			if (sym[off + i].e)
				return true;
		return false;
	}
};
struct Chunk {
	int rc;
	Obj* o[64];
};
class Mem {
	std::vector<Chunk*> ch_;
	u64 next_;

public:
	Mem()
	    : next_(1)
	{
	}
	Mem(const Mem& m)
	    : ch_(m.ch_)
	    , next_(m.next_)
	{
		for (Chunk* c : ch_)
			if (c)
				++c->rc;
	}
	Mem& operator=(const Mem&) = delete;
	~Mem()
	{
		for (Chunk* c : ch_)
			drop(c);
	}
	static void drop(Chunk* c)
	{
		if (c && --c->rc == 0) {
			for (int i = 0; i < 64; ++i)
				Obj::unref(c->o[i]);
			free(c);
		}
	}
	Chunk* wchunk(u64 ci)
	{
		if (ci >= ch_.size())
			ch_.resize(ci + 1, nullptr);
		Chunk* c = ch_[ci];
		if (!c) {
			c = (Chunk*)calloc(1, sizeof(Chunk));
			c->rc = 1;
			ch_[ci] = c;
		} else if (c->rc > 1) {
			Chunk* n = (Chunk*)malloc(sizeof(Chunk));
			*n = *c;
			n->rc = 1;
			for (int i = 0; i < 64; ++i)
				if (n->o[i])
					++n->o[i]->rc;
			--c->rc;
			ch_[ci] = n;
			c = n;
		}
		return c;
	}
	u64 alloc(u64 size, ObjKind k, uint8_t fill)
	{
		u64 id = next_++;
		wchunk(id >> 6)->o[id & 63] = Obj::make(id, size, k, fill);
		return id << 32;
	}
	u64 reserveId() { return next_++; }
	const Obj* get(u64 id) const
	{
		u64 ci = id >> 6;
		if (ci >= ch_.size() || !ch_[ci])
			return nullptr;
		return ch_[ci]->o[id & 63];
	}
	Obj* getW(u64 id)
	{
		Chunk* c = wchunk(id >> 6);
		Obj*& o = c->o[id & 63];
		if (o && o->rc > 1) {
			Obj* n = o->clone();
			--o->rc;
			o = n;
		}
		return o;
	}
	// storage is released; the tombstone keeps size and kind for diagnosis
	void kill(u64 id)
	{
		Obj* o = getW(id);
		o->alive = false;
		free(o->data);
		free(o->sym);
		o->data = (uint8_t*)malloc(1);
		o->sym = nullptr;
		// keep size for messages, but make sure nobody copies data
		o->size = 0;
	}
	void forget(u64 id)
	{ // stack objects: drop the entry altogether
		Chunk* c = wchunk(id >> 6);
		Obj::unref(c->o[id & 63]);
		c->o[id & 63] = nullptr;
		for (int i = 0; i < 64; ++i)
			if (c->o[i])
				return;
		if (((id >> 6) + 1) * 64 < next_) {
			drop(c);
			ch_[id >> 6] = nullptr;
		}
	}
	u64 nextId() const { return next_; }
};
