#pragma once
#include "expr.hpp"
#include <map>
#include <string>
#include <vector>
#include <algorithm>

struct Val { u64 c = 0; E s = nullptr; };

struct Cell { u32 off; u8 size; E e; };

enum ObjKind : u8 { OK_HEAP, OK_STACK, OK_GLOBAL, OK_FUNC, OK_EXC };

struct Obj {
    u32 refs = 1; u32 size = 0; ObjKind kind = OK_HEAP; bool ro = false; u8 allocKind = 0; // 0 malloc 1 new 2 new[]
    u8* bytes = nullptr;
    std::vector<Cell> sym;
    explicit Obj(u32 sz) : size(sz) { bytes = (u8*)calloc(sz ? sz : 1, 1); }
    Obj(const Obj& o) : refs(1), size(o.size), kind(o.kind), ro(o.ro), allocKind(o.allocKind), sym(o.sym) {
        bytes = (u8*)malloc(size ? size : 1); memcpy(bytes, o.bytes, size); }
    ~Obj() { free(bytes); }
};

static const unsigned OFFBITS = 26;
static const u64 OFFMASK = (1ull << OFFBITS) - 1;

struct Chunk {
    u32 refs = 1; u32 live = 0;
    Obj* o[256];
    Chunk() { memset(o, 0, sizeof o); }
    Chunk(const Chunk& k) : refs(1), live(k.live) { for (int i = 0; i < 256; i++) { o[i] = k.o[i]; if (o[i]) o[i]->refs++; } }
    ~Chunk() { for (int i = 0; i < 256; i++) if (o[i] && --o[i]->refs == 0) delete o[i]; }
};

struct Mem {
    std::vector<Chunk*> ch;
    u32 next = 1;
    Mem() {}
    Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto* c : ch) if (c) c->refs++; }
    Mem& operator=(const Mem&) = delete;
    ~Mem() { for (auto* c : ch) if (c && --c->refs == 0) delete c; }
    u32 alloc(u32 size, ObjKind k) {
        u32 id = next++;
        u32 ci = id >> 8;
        if (ci >= ch.size()) ch.resize(ci + 1, nullptr);
        Chunk* c = wchunk(ci);
        Obj* o = new Obj(size); o->kind = k;
        c->o[id & 255] = o; c->live++;
        return id;
    }
    Chunk* wchunk(u32 ci) {
        Chunk*& c = ch[ci];
        if (!c) { c = new Chunk(); return c; }
        if (c->refs > 1) { c->refs--; c = new Chunk(*c); }
        return c;
    }
    inline Obj* get(u64 id) const {
        u64 ci = id >> 8;
        if (ci >= ch.size()) return nullptr;
        Chunk* c = ch[ci];
        return c ? c->o[id & 255] : nullptr;
    }
    inline Obj* getW(u64 id) {
        u64 ci = id >> 8;
        if (ci >= ch.size() || !ch[ci]) return nullptr;
        Chunk* c = ch[ci];
        if (c->refs > 1) c = wchunk((u32)ci);
        Obj*& o = c->o[id & 255];
        if (!o) return nullptr;
        if (o->refs > 1) { o->refs--; o = new Obj(*o); }
        return o;
    }
    void release(u64 id) {
        u32 ci = (u32)(id >> 8);
        Chunk* c = wchunk(ci);
        Obj*& o = c->o[id & 255];
        if (o) { if (--o->refs == 0) delete o; o = nullptr; c->live--; 
            if (c->live == 0 && (id >> 8) + 1 < ch.size()) { delete c; ch[ci] = nullptr; } }
    }
    static u64 addr(u32 id) { return (u64)id << OFFBITS; }
};

struct FuncInfo; struct Inst;

struct Frame { FuncInfo* f; u32 pc; u32 base; const Inst* call; u32 allocaBase; };

struct Exc { u64 obj; u64 ti; int handlers; };

struct Obs { const std::string* name; Val v; bool isDouble; };

struct State {
    std::vector<Frame> frames;
    std::vector<Val> regs;
    std::vector<u32> allocas;
    Mem mem;
    std::vector<E> pc;
    std::vector<E> implied;
    ModelP model;
    std::vector<Exc> caught;
    std::map<u64, u64> excTI;       // exception object -> typeinfo
    u64 pendingExc = 0; u64 pendingSel = 0;
    std::map<std::string, u32> occ;
    std::vector<Obs> trace;
    std::vector<std::pair<E, std::string>> inputs; // symbolic inputs in creation order (expr, unique name)
    std::vector<const std::string*> reached;
    u64 steps = 0;
    u32 depth = 0; // symbolic decisions
    u32 uncaught = 0;
    u64 id = 0;
};
