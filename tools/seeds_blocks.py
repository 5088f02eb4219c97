P = r'''
#include "StableBlockVector.hpp"
#include "StableBlockDeque.hpp"
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <set>
#include <map>
#include <vector>
using namespace gmlc::containers;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s line %d\n", #c, __LINE__); exit(1); } } while (0)
static std::map<void*, size_t> live;
template<class T> struct Al {
    T* allocate(size_t n) { auto p = static_cast<T*>(::operator new(n * sizeof(T))); live[p] = n; return p; }
    void deallocate(T* p, size_t n) { CHECK(live.count(p) && live[p] == n); live.erase(p); ::operator delete(p); }
};
static std::set<const void*> alive;
struct E { long v;
  E(): v(0) { CHECK(alive.insert(this).second); } E(long x): v(x) { CHECK(alive.insert(this).second); }
  E(const E& o): v(o.v) { CHECK(alive.count(&o)); CHECK(alive.insert(this).second); }
  E& operator=(const E& o) { CHECK(alive.count(this) && alive.count(&o)); v = o.v; return *this; }
  ~E() { CHECK(alive.erase(this) == 1); } };
'''
SEEDS = [
 dict(id="sbv-free-table-off-by-one", property="C07", file="StableBlockVector.hpp",
   edits=[("if (freeIndex >= freeSlotsAvailable) {", "if (freeIndex > freeSlotsAvailable || freeSlotsAvailable == 0) {")],
   needs="more than 64 blocks on the free list of a stable block vector", breaks="the 65th freed block is written past the end of the free-block table",
   demo=P + "int main() { { StableBlockVector<E, 0, Al<E>> c; for (long i = 0; i < 200; ++i) c.push_back(E(i)); while (!c.empty()) c.pop_back(); for (long i = 0; i < 200; ++i) c.push_back(E(i)); for (long i = 0; i < 200; ++i) CHECK(c[i].v == i); } CHECK(live.empty()); CHECK(alive.empty()); }\n"),
 dict(id="sbv-clear-leaks-block-one", property="C07", file="StableBlockVector.hpp",
   edits=[("for (int ii = dataSlotIndex - 1; ii >= 1; --ii) {", "for (int ii = dataSlotIndex - 1; ii > 1; --ii) {")],
   needs="clear() on a vector with at least three blocks", breaks="the elements of the second block are never destroyed and the block is lost",
   demo=P + "int main() { { StableBlockVector<E, 2, Al<E>> c; for (long i = 0; i < 30; ++i) c.push_back(E(i)); c.clear(); CHECK(alive.empty()); c.shrink_to_fit(); CHECK(live.size() == 1); } CHECK(live.empty()); }\n"),
 dict(id="sbv-move-assign-free-count", property="C11", file="StableBlockVector.hpp",
   edits=[("            freeSlotsAvailable = sbv.freeSlotsAvailable;\n            freeIndex = sbv.freeIndex;\n            freeblocks = sbv.freeblocks;\n", "            freeSlotsAvailable = sbv.freeSlotsAvailable;\n            freeblocks = sbv.freeblocks;\n")],
   needs="move assignment between two vectors that hold a different number of free blocks", breaks="the target keeps its own free-block count for the source's free-block table",
   demo=P + "int main() { { StableBlockVector<E, 1, Al<E>> a, b; for (long i = 0; i < 40; ++i) { a.push_back(E(i)); b.push_back(E(i)); } for (int i = 0; i < 30; ++i) a.pop_back(); for (int i = 0; i < 10; ++i) b.pop_back(); b = std::move(a); CHECK(b.size() == 10); for (long i = 10; i < 100; ++i) b.push_back(E(i)); for (long i = 0; i < 100; ++i) CHECK(b[i].v == i); } CHECK(live.empty()); CHECK(alive.empty()); }\n"),
 dict(id="it-jump-over-blocks", property="C10", file="BlockIterator.hpp",
   edits=[("vec += 1 + static_cast<size_t>(diff / BLOCKSIZE);", "vec += 1;")],
   needs="a forward jump of an iterator across more than one block boundary", breaks="the iterator lands on an earlier block",
   demo=P + "int main() { StableBlockVector<E, 1, Al<E>> c; for (long i = 0; i < 40; ++i) c.push_back(E(i)); auto it = c.begin(); it += 9; CHECK((*it).v == 9); it += 1; CHECK((*it).v == 10); CHECK((*(c.begin() + 33)).v == 33); }\n"),
 dict(id="it-back-jump-remainder", property="C10", file="BlockIterator.hpp",
   edits=[("auto diff = -offset - 1;", "auto diff = -offset;"), ("offset = BLOCKSIZE - 1 - (diff % BLOCKSIZE);", "offset = BLOCKSIZE - 1 - ((diff - 1) % BLOCKSIZE);")],
   needs="a backward step that lands exactly on the first element of a block", breaks="the block is chosen one too far back",
   demo=P + "int main() { StableBlockDeque<E, 2, Al<E>> c; for (long i = 0; i < 60; ++i) c.push_back(E(i)); for (long i = 0; i < 60; ++i) for (long k = 0; k <= i; ++k) { auto it = c.begin() + i; it -= k; CHECK((*it).v == i - k); } }\n"),
 dict(id="sbd-shift-loses-last-block", property="C08", file="StableBlockDeque.hpp",
   edits=[("dataSlotFront = dataSlotFront / 2;\n", "dataSlotFront = (dataSlotFront + 1) / 2;\n")],
   needs="the block table has to be shifted toward the front while the front slot has an odd index", breaks="the slot positions no longer match the shifted pointers",
   demo=P + "int main() { for (int odd = 0; odd < 4; ++odd) { StableBlockDeque<E, 0, Al<E>> c; std::deque<long> m; for (long i = 0; i < 20 + odd; ++i) { c.push_back(E(i)); m.push_back(i); } for (int i = 0; i < 9 + odd; ++i) { c.pop_front(); m.pop_front(); } for (long i = 100; i < 130; ++i) { c.push_back(E(i)); m.push_back(i); } CHECK(c.size() == m.size()); for (size_t i = 0; i < m.size(); ++i) CHECK(c[i].v == m[i]); } CHECK(live.empty()); }\n"),
 dict(id="sbd-front-shift-overlap", property="C08", file="StableBlockDeque.hpp",
   edits=[("                            dataptr + (dataSlotsAvailable - dataSlotBack) / 2);\n\n                        dataSlotFront = (dataSlotsAvailable - dataSlotBack) / 2;", "                            dataptr + (dataSlotsAvailable - diff) / 2);\n\n                        dataSlotFront = (dataSlotsAvailable - dataSlotBack + 1) / 2;")],
   needs="push_front reaching slot 0 of the table while the back slot has the other parity", breaks="the front position and the shifted pointers differ by one slot",
   demo=P + "int main() { for (int k = 0; k < 4; ++k) { StableBlockDeque<E, 0, Al<E>> c; std::deque<long> m; for (long i = 0; i < 6 + k; ++i) { c.push_back(E(i)); m.push_back(i); } for (long i = 0; i < 70; ++i) { c.push_front(E(i + 500)); m.push_front(i + 500); } CHECK(c.size() == m.size()); for (size_t i = 0; i < m.size(); ++i) CHECK(c[i].v == m[i]); } CHECK(live.empty()); }\n"),
 dict(id="sbd-destroy-front-block", property="C09", file="StableBlockDeque.hpp",
   edits=[("                    for (int jj = blockSize - 1; jj > fsize;\n                         --jj) {  // call destructors on the first block\n                        dataptr[dataSlotFront][jj].~X();\n                    }\n                    a.deallocate", "                    for (int jj = blockSize - 1; jj > fsize + 1;\n                         --jj) {  // call destructors on the first block\n                        dataptr[dataSlotFront][jj].~X();\n                    }\n                    a.deallocate")],
   needs="destroying a deque that spans several blocks", breaks="the first element is never destroyed",
   demo=P + "int main() { { StableBlockDeque<E, 2, Al<E>> c; for (long i = 0; i < 20; ++i) { c.push_back(E(i)); c.push_front(E(-i)); } } CHECK(alive.empty()); CHECK(live.empty()); }\n"),
 dict(id="sbd-clear-keeps-middle", property="C09", file="StableBlockDeque.hpp",
   edits=[("            if (dataSlotFront < dataSlotBack) {\n                moveBlocktoAvailable(dataptr[dataSlotBack]);", "            if (dataSlotFront + 1 < dataSlotBack) {\n                moveBlocktoAvailable(dataptr[dataSlotBack]);")],
   needs="clear() on a deque that spans exactly two blocks", breaks="the front block's elements are not destroyed and the back block is lost",
   demo=P + "int main() { { StableBlockDeque<E, 2, Al<E>> c; for (long i = 0; i < 3; ++i) c.push_back(E(i)); c.clear(); CHECK(alive.empty()); } CHECK(alive.empty()); CHECK(live.empty()); }\n"),
 dict(id="sbd-back-boundary", property="C08", file="StableBlockDeque.hpp",
   edits=[("        const X& front() const\n        {\n            return (fsize == blockSize - 1) ? dataptr[dataSlotFront + 1][0] :", "        const X& front() const\n        {\n            return (fsize == blockSize - 1 && csize >= blockSize) ? dataptr[dataSlotFront + 1][0] :")],
   needs="const front() when the front block is exhausted and fewer elements than one block remain", breaks="front() reads past the end of the front block",
   demo=P + "int main() { StableBlockDeque<E, 2, Al<E>> c; for (long i = 0; i < 20; ++i) c.push_back(E(i)); const auto& k = c; for (long i = 0; i < 20; ++i) { CHECK(k.front().v == i); c.pop_front(); } }\n"),
 dict(id="sbd-assign-drop-count", property="C08", file="StableBlockDeque.hpp",
   edits=[("                if (copyFrom == last) {\n                    // now clear out the extras\n                    int extracnt = 0;", "                if (copyFrom == last) {\n                    // now clear out the extras\n                    signed char extracnt = 0;")], nth={"                if (copyFrom == last) {\n                    // now clear out the extras\n                    int extracnt = 0;": 0},
   needs="assigning a range that is at least 128 elements shorter than the contents", breaks="the surplus elements are not all removed",
   demo=P + "int main() { StableBlockDeque<E, 2, Al<E>> c; for (long i = 0; i < 400; ++i) c.push_back(E(i)); std::vector<E> s(3, E(7)); c.assign(s.begin(), s.end()); CHECK(c.size() == 3); }\n"),
 dict(id="sbv-sized-table", property="C06", file="StableBlockVector.hpp",
   edits=[("dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),", "dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),")],
   needs="a sized constructor with at least 64 blocks followed by pushes that fill the last block", breaks="the table is one slot smaller than recorded",
   demo=P + "int main() { { StableBlockVector<E, 1, Al<E>> c(140, E(3)); for (long i = 0; i < 50; ++i) { c.push_back(E(i)); long n = 0; for (auto& x : c) n += x.v; CHECK(c.size() == 141 + i); } } CHECK(live.empty()); }\n"),

 dict(id="sbv-destroy-last-block-first", property="C07", file="StableBlockVector.hpp",
   edits=[("                for (int jj = bsize - 1; jj >= 0;\n                     --jj) {  // call destructors on the last block\n                    dataptr[dataSlotIndex][jj].~X();\n                }\n                if (dataSlotIndex > 0) {\n                    a.", "                for (int jj = bsize - 1; jj > 0;\n                     --jj) {  // call destructors on the last block\n                    dataptr[dataSlotIndex][jj].~X();\n                }\n                if (dataSlotIndex > 0) {\n                    a.")],
   needs="destroying a vector whose last block holds an element", breaks="the first element of the last block is never destroyed",
   demo=P + "int main() { { StableBlockVector<E, 2, Al<E>> c; for (long i = 0; i < 6; ++i) c.push_back(E(i)); } CHECK(alive.empty()); CHECK(live.empty()); }\n"),
 dict(id="sbv-clear-first-block", property="C07", file="StableBlockVector.hpp",
   edits=[("                for (int jj = blockSize - 1; jj >= 0;\n                     --jj) {  // call destructors on the first block", "                for (int jj = bsize - 1; jj >= 0;\n                     --jj) {  // call destructors on the first block")],
   needs="clear() on a vector with more than one block whose last block is partly filled", breaks="elements at the end of the first block are never destroyed",
   demo=P + "int main() { { StableBlockVector<E, 2, Al<E>> c; for (long i = 0; i < 10; ++i) c.push_back(E(i)); c.clear(); CHECK(alive.empty()); } CHECK(live.empty()); }\n"),
 dict(id="sbd-copy-slot-capacity", property="C11", file="StableBlockDeque.hpp",
   edits=[("            dataptr(new X*[std::max(\n                static_cast<size_t>(sbd.dataSlotsAvailable),\n                size_t{64})]),", "            dataptr(new X*[std::max(\n                static_cast<size_t>(sbd.dataSlotFront) + (sbd.csize >> N),\n                size_t{64})]),")],
   needs="copying a deque with more blocks than the minimum table size holds", breaks="the copy's block table is smaller than it records",
   demo=P + "int main() { { StableBlockDeque<E, 0, Al<E>> a; for (long i = 0; i < 70; ++i) a.push_back(E(i)); StableBlockDeque<E, 0, Al<E>> b(a); for (long i = 70; i < 140; ++i) b.push_back(E(i)); CHECK(b.size() == 140); for (long i = 0; i < 140; ++i) CHECK(b[i].v == i); CHECK(a.size() == 70); } CHECK(live.empty()); CHECK(alive.empty()); }\n"),
 dict(id="sbv-assign-stops-at-block", property="C06", file="StableBlockVector.hpp",
   edits=[("                while (csize > ii) {\n                    pop_back();\n                }", "                while (csize > ii && bsize != 0) {\n                    pop_back();\n                }")], nth={"                while (csize > ii) {\n                    pop_back();\n                }": 0},
   needs="assigning a shorter range when removing the surplus crosses a block boundary", breaks="surplus elements stay in the vector",
   demo=P + "int main() { StableBlockVector<E, 2, Al<E>> c; for (long i = 0; i < 30; ++i) c.push_back(E(i)); std::vector<E> s(6, E(7)); c.assign(s.begin(), s.end()); CHECK(c.size() == 6); }\n"),
]
