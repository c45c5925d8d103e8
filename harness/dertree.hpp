// A DER document as an editable tree, and structure-aware mutations of it.
// OCTET/BIT STRING contents that are themselves DER are opened up as well, so extension values and keys are mutated too.
#pragma once
#include "vh.hpp"
namespace der {
struct Node {
    uint8_t tag = 0; bool cons = false, wrap = false; uint8_t unused = 0;    // wrap: a string whose content is DER
    Bytes body; std::vector<Node> kid; Bytes rawLen;                          // rawLen: length octets to write instead of the right ones
};
inline bool hdr(const uint8_t *p, size_t n, size_t &h, size_t &l)
{
    if (n < 2 || (p[0] & 0x1f) == 0x1f) return false;
    h = 2; l = p[1];
    if (l >= 0x80) { size_t k = l & 0x7f; if (k == 0 || k > 4 || n < 2 + k) return false; l = 0; for (size_t i = 0; i < k; i++) l = l << 8 | p[2 + i]; h = 2 + k; if (l < 0x80) return false; }
    return l <= n - h;
}
inline bool parse(const uint8_t *p, size_t n, std::vector<Node> &out, int depth = 0)
{
    if (depth > 24) return false;
    while (n) {
        size_t h, l; if (!hdr(p, n, h, l)) return false;
        Node x; x.tag = p[0]; const uint8_t *c = p + h;
        if (p[0] & 0x20) { x.cons = true; if (!parse(c, l, x.kid, depth + 1)) return false; }
        else {
            x.body.assign(c, c + l);
            size_t off = p[0] == 0x03 ? 1 : 0;
            if ((p[0] == 0x04 || p[0] == 0x03) && l > off + 1 && (off == 0 || c[0] == 0)) { size_t h2, l2; std::vector<Node> k; if (hdr(c + off, l - off, h2, l2) && h2 + l2 == l - off && parse(c + off, l - off, k, depth + 1)) { x.wrap = true; x.kid = k; } }
        }
        out.push_back(x); p += h + l; n -= h + l;
    }
    return true;
}
inline Bytes lenEnc(size_t l) { if (l < 128) return {(uint8_t)l}; Bytes b; for (size_t v = l; v; v >>= 8) b.insert(b.begin(), (uint8_t)v); b.insert(b.begin(), (uint8_t)(0x80 | b.size())); return b; }
inline void put(const Node &x, Bytes &o)
{
    Bytes c; if (x.cons || x.wrap) { if (x.wrap && x.tag == 0x03) c.push_back(0); for (auto &k : x.kid) put(k, c); } else c = x.body;
    o.push_back(x.tag); Bytes l = x.rawLen.empty() ? lenEnc(c.size()) : x.rawLen; o.insert(o.end(), l.begin(), l.end()); o.insert(o.end(), c.begin(), c.end());
}
inline Bytes encode(const std::vector<Node> &v) { Bytes o; for (auto &x : v) put(x, o); return o; }
struct Ref { std::vector<Node> *list; size_t i; };
inline void collect(std::vector<Node> &v, std::vector<Ref> &r) { for (size_t i = 0; i < v.size(); i++) { r.push_back({&v, i}); collect(v[i].kid, r); } }
// one structural mutation; returns what it did
inline std::string mutate(G &g, std::vector<Node> &doc)
{
    std::vector<Ref> r; collect(doc, r); if (r.empty()) return "none";
    Ref a = r[g.draw(r.size() - 1)]; Node &x = (*a.list)[a.i];
    switch (g.weighted({4, 3, 3, 3, 2, 2, 6, 3, 2, 2})) {
    case 0: x.tag = g.boolean() ? (uint8_t)g.draw(255) : g.pick({(uint8_t)0x02, (uint8_t)0x03, (uint8_t)0x04, (uint8_t)0x05, (uint8_t)0x06, (uint8_t)0x30, (uint8_t)0x31, (uint8_t)0x01, (uint8_t)0x0a, (uint8_t)0x0c, (uint8_t)0x17, (uint8_t)0x18, (uint8_t)0x80, (uint8_t)0x82, (uint8_t)0x87, (uint8_t)0xa0, (uint8_t)0xa1, (uint8_t)0xa3, (uint8_t)0x1e, (uint8_t)0x1c, (uint8_t)0x24}); return "tag";
    case 1: { a.list->erase(a.list->begin() + (long)a.i); return "delete"; }
    case 2: { Node c = x; a.list->insert(a.list->begin() + (long)g.draw(a.list->size()), c); return "duplicate"; }
    case 3: { size_t j = g.draw(a.list->size() - 1); if (j != a.i) std::swap((*a.list)[a.i], (*a.list)[j]); return "swap"; }
    case 4: { Ref b = r[g.draw(r.size() - 1)]; Node c = (*b.list)[b.i]; x = c; return "graft"; }
    case 5: { // wrong or odd length octets
        Bytes c; Node t = x; t.rawLen.clear(); Bytes e; put(t, e); size_t h, l; if (!hdr(e.data(), e.size(), h, l)) return "none";
        switch (g.draw(5)) {
        case 0: x.rawLen = lenEnc(l + g.range(1, 300)); break;
        case 1: x.rawLen = lenEnc(l - (l ? g.range(1, std::min<size_t>(l, 40)) : 0)); break;
        case 2: x.rawLen = {0x80}; break;
        case 3: { Bytes k = lenEnc(l); if (k.size() == 1) x.rawLen = {0x81, k[0]}; else { k.insert(k.begin() + 1, 0); k[0]++; x.rawLen = k; } break; }
        case 4: x.rawLen = {0x84, (uint8_t)g.draw(255), 0xff, 0xff, (uint8_t)g.draw(255)}; break;
        default: x.rawLen = {(uint8_t)(0x85 + g.draw(0x7a)), 0, 0, 0, 0, 1}; break;
        }
        return "length"; }
    case 6: { // content of a leaf
        if (x.cons || x.wrap) { if (g.chance(1, 3)) { x.cons = x.wrap = false; x.body = g.bytes(g.len(0, 40)); return "opaque"; } x.kid.clear(); return "empty"; }
        switch (g.draw(6)) {
        case 0: x.body.clear(); break;
        case 1: if (!x.body.empty()) x.body[g.draw(x.body.size() - 1)] ^= (uint8_t)(1 << g.draw(7)); break;
        case 2: x.body = g.bytes(g.len(0, 300)); break;
        case 3: if (!x.body.empty()) x.body.resize(g.draw(x.body.size() - 1)); break;
        case 4: x.body.insert(x.body.begin() + (long)(g.boolean() ? 0 : x.body.size()), g.pick({(uint8_t)0, (uint8_t)0xff, (uint8_t)0x80, (uint8_t)0x7f})); break;
        case 5: for (auto &b : x.body) b = g.pick({(uint8_t)0, (uint8_t)0xff, (uint8_t)0x80}); break;
        default: x.body.resize(x.body.size() + g.len(1, 5000), (uint8_t)g.draw(255)); break;
        }
        return "leaf"; }
    case 7: { Node c; c.tag = (uint8_t)g.pick({0x30, 0x31, 0xa0, 0x04, 0x02, 0x05, 0x06, 0x0c, 0x03, 0x01}); if (c.tag & 0x20) { c.cons = true; if (g.boolean()) c.kid.push_back(x); } else c.body = g.bytes(g.len(0, 20)); a.list->insert(a.list->begin() + (long)g.draw(a.list->size()), c); return "insert"; }
    case 8: { int n = (int)g.range(1, 30); for (int i = 0; i < n; i++) { Node c; c.tag = 0x30; c.cons = true; c.kid.push_back(x); x = c; } return "nest"; }
    default: { // another node's tag kept, content of a sibling of the same kind
        std::vector<Ref> s; for (auto &b : r) if ((*b.list)[b.i].tag == x.tag) s.push_back(b); Ref b = s[g.draw(s.size() - 1)]; Node c = (*b.list)[b.i]; x = c; return "same-tag"; }
    }
}
// A damaged copy of a document: structural edits, then possibly raw byte damage.
inline Bytes damage(G &g, const Bytes &in, bool &changed)
{
    Bytes out = in; std::vector<Node> doc;
    if (!in.empty() && parse(in.data(), in.size(), doc)) { int n = g.chance(1, 6) ? 0 : (int)g.range(1, 4); for (int i = 0; i < n; i++) g.label("mut:" + mutate(g, doc)); out = encode(doc); }
    if (g.chance(1, 5) && !out.empty()) {
        int n = (int)g.range(1, 4);
        for (int i = 0; i < n && !out.empty(); i++) switch (g.draw(3)) {
            case 0: out[g.draw(out.size() - 1)] ^= (uint8_t)(1 + g.draw(254)); break;
            case 1: out.resize(g.draw(out.size())); break;
            case 2: { Bytes x = g.bytes(g.len(1, 20)); out.insert(out.begin() + (long)g.draw(out.size()), x.begin(), x.end()); break; }
            default: { size_t a = g.draw(out.size() - 1), k = std::min<size_t>(out.size() - a, g.range(1, 30)); out.erase(out.begin() + (long)a, out.begin() + (long)(a + k)); break; }
        }
        g.label("mut:raw");
    }
    changed = out != in; return out;
}
}  // namespace der
