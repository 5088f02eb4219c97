P = r'''
#include "StackBuffer.hpp"
#include "CircularBuffer.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
using namespace gmlc::containers;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s line %d\n", #c, __LINE__); exit(1); } } while (0)
template<class B> bool push(B& b, const std::string& s) { return b.push(reinterpret_cast<const unsigned char*>(s.data()), (int)s.size()); }
template<class B> std::string pop(B& b) { std::string r(200, 'x'); int n = b.pop(reinterpret_cast<unsigned char*>(&r[0]), 200); CHECK(n >= 0); r.resize(n); return r; }
'''
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=pointer-overflow,alignment,nonnull-attribute"
SEEDS = [
 dict(id="sb-pop-frees-wrong-space", property="C01", file="StackBuffer.hpp", san=SAN,
   edits=[("if (nextIndex[1].offset + blkSize ==\n                        static_cast<int>(next - origin)) {", "if (nextIndex[1].offset + blkSize <=\n                        static_cast<int>(next - origin)) {")],
   needs="reverse, then pop of a block that is not the last one in memory, then a push", breaks="the push overwrites the end of a block still stored",
   demo=P + 'int main() { StackBuffer b(100); push(b, "aaaa"); push(b, "bbbbbbbbbb"); b.reverse(); CHECK(pop(b) == "aaaa"); CHECK(push(b, "cccc")); CHECK(pop(b) == "cccc"); CHECK(pop(b) == "bbbbbbbbbb"); CHECK(b.empty()); }\n'),
 dict(id="sb-space-ignores-own-record", property="C01", file="StackBuffer.hpp", san=SAN,
   edits=[("(static_cast<std::ptrdiff_t>(dataCount) + 1) * diSize) >=", "(static_cast<std::ptrdiff_t>(dataCount) + (dataCount < 4 ? 1 : 0)) * diSize) >=")],
   needs="more than four blocks and a push that fits only without its index record", breaks="the space query promises room that is not there and the record overwrites the block data",
   demo=P + 'int main() { StackBuffer b(64); for (int i = 0; i < 4; ++i) CHECK(push(b, std::string(3, char(97 + i)))); int n = 64 - 12 - 32; if (push(b, std::string(n, \'z\'))) { CHECK(pop(b) == std::string(n, \'z\')); CHECK(false); } for (int i = 3; i >= 0; --i) CHECK(pop(b) == std::string(3, char(97 + i))); }\n'),
 dict(id="sb-shrink-limit", property="C02", file="StackBuffer.hpp", san=SAN,
   edits=[("if (newsize < dataOffset + diSize * stack.dataCount) {", "if (newsize < dataOffset + diSize * (stack.dataCount > 2 ? stack.dataCount - 1 : stack.dataCount)) {")],
   needs="shrinking with three or more blocks to less than data plus records", breaks="the moved index overwrites stored bytes instead of the resize throwing",
   demo=P + 'int main() { StackBuffer b(100); for (int i = 0; i < 3; ++i) push(b, std::string(8, char(97 + i))); bool t = false; try { b.resize(44); } catch (const std::exception&) { t = true; } CHECK(t); for (int i = 2; i >= 0; --i) CHECK(pop(b) == std::string(8, char(97 + i))); }\n'),
 dict(id="sb-resize-memcpy", property="C02", file="StackBuffer.hpp", san=SAN,
   edits=[("memmove(\n                    data + newOffset,", "memcpy(\n                    data + newOffset,")], nth={"memmove(\n                    data + newOffset,": 1},
   needs="a shrink by less than the size of the index, with two or more blocks", breaks="the overlapping index records are copied with memcpy",
   demo=P + 'int main() { StackBuffer b(400); for (int i = 0; i < 20; ++i) push(b, std::string(3, char(97 + i))); CHECK(b.resize(392)); for (int i = 19; i >= 0; --i) CHECK(pop(b) == std::string(3, char(97 + i))); }\n'),
 dict(id="sb-copy-claims-capacity", property="C03", file="StackBuffer.hpp", san=SAN,
   edits=[("actualCapacity{sq.statedSize}, stack(sq.stack)", "actualCapacity{sq.actualCapacity}, stack(sq.stack)")],
   needs="copying a buffer that was shrunk, then growing the copy within the old capacity", breaks="the copy writes past its smaller block",
   demo=P + 'int main() { StackBuffer b(200); b.resize(50); push(b, "abc"); StackBuffer c(b); CHECK(c.resize(150)); CHECK(push(c, std::string(100, \'q\'))); CHECK(pop(c) == std::string(100, \'q\')); CHECK(pop(c) == "abc"); }\n'),
 dict(id="cb-copy-claims-capacity", property="C03", file="CircularBuffer.hpp", san=SAN,
   edits=[("actualCapacity{cb.actualSize}, buffer(cb.buffer)", "actualCapacity{cb.actualCapacity}, buffer(cb.buffer)")],
   needs="copying a buffer that was shrunk, then growing the copy within the old capacity", breaks="the copy writes past its smaller block",
   demo=P + 'int main() { CircularBuffer b(200); b.resize(50); push(b, "abc"); CircularBuffer c(b); c.resize(150); CHECK(push(c, std::string(100, \'q\'))); CHECK(pop(c) == "abc"); CHECK(pop(c) == std::string(100, \'q\')); }\n'),
 dict(id="cb-wrapped-space-by-one", property="C04", file="CircularBuffer.hpp", san=SAN,
   edits=[("if ((next_read - next_write) >= static_cast<ptrdiff_t>(sz) + 4) {", "if ((next_read - next_write) >= static_cast<ptrdiff_t>(sz) + 3) {"),
          ("(next_read - next_write) >=\n                static_cast<ptrdiff_t>(blockSize) + 4) {", "(next_read - next_write) >=\n                static_cast<ptrdiff_t>(blockSize) + 3) {")],
   needs="a wrapped buffer and a block one byte larger than the gap before the oldest block", breaks="the push overwrites the first byte of the oldest block's size",
   demo=P + 'int main() { CircularBuffer b(40); CHECK(push(b, std::string(16, \'a\'))); CHECK(push(b, std::string(14, \'b\'))); CHECK(pop(b) == std::string(16, \'a\')); CHECK(push(b, "cc")); bool k = push(b, std::string(11, \'d\')); if (!k) CHECK(!b.isSpaceAvailable(11)); CHECK(pop(b) == std::string(14, \'b\')); CHECK(pop(b) == "cc"); if (k) CHECK(pop(b) == std::string(11, \'d\')); CHECK(b.empty()); }\n'),
 dict(id="cb-small-target-after-wrap", property="C04", file="CircularBuffer.hpp", san=SAN,
   edits=[("                memcpy(&size, next_read, sizeof(int));\n            }\n            if (size <= maxSize) {", "                memcpy(&size, next_read, sizeof(int));\n                if (size > maxSize) {\n                    next_read += size;\n                }\n            }\n            if (size <= maxSize) {")],
   needs="a pop into too small a target exactly when the reader stands on the wrap marker", breaks="the refused pop loses its place",
   demo=P + 'int main() { CircularBuffer b(60); CHECK(push(b, std::string(20, \'a\'))); CHECK(push(b, std::string(10, \'b\'))); CHECK(pop(b) == std::string(20, \'a\')); CHECK(push(b, std::string(19, \'c\'))); CHECK(pop(b) == std::string(10, \'b\')); unsigned char t[4]; CHECK(b.pop(t, 4) == -19); CHECK(pop(b) == std::string(19, \'c\')); CHECK(b.empty()); }\n'),
 dict(id="cb-shrink-exactly-full", property="C05", file="CircularBuffer.hpp", san=SAN,
   edits=[("if (readDiff + write_offset < newsize) {", "if (readDiff + write_offset <= newsize) {")],
   needs="shrinking a wrapped buffer to exactly the space its content takes", breaks="read and write positions coincide and the content is lost",
   demo=P + 'int main() { CircularBuffer b(60); CHECK(push(b, std::string(20, \'a\'))); CHECK(push(b, std::string(10, \'b\'))); CHECK(push(b, std::string(10, \'e\'))); CHECK(pop(b) == std::string(20, \'a\')); CHECK(push(b, std::string(8, \'c\'))); bool t = false; try { b.resize(60 - 24 + 12); } catch (const std::exception&) { t = true; } CHECK(pop(b) == std::string(10, \'b\')); CHECK(pop(b) == std::string(10, \'e\')); CHECK(pop(b) == std::string(8, \'c\')); }\n'),
 dict(id="cb-shrink-keeps-position", property="C05", file="CircularBuffer.hpp", san=SAN,
   edits=[("if (write_offset <= newsize) {", "if (write_offset - read_offset / 2 <= newsize) {")],
   needs="shrinking an unwrapped buffer below its write position after blocks were read", breaks="stored blocks lie beyond the new capacity and are skipped or read out of bounds",
   demo=P + 'int main() { CircularBuffer b(100); CHECK(push(b, std::string(36, \'a\'))); CHECK(push(b, std::string(10, \'b\'))); CHECK(push(b, std::string(4, \'c\'))); CHECK(pop(b) == std::string(36, \'a\')); b.resize(50); CHECK(pop(b) == std::string(10, \'b\')); CHECK(pop(b) == std::string(4, \'c\')); CHECK(b.empty()); CHECK(push(b, std::string(20, \'d\'))); CHECK(pop(b) == std::string(20, \'d\')); }\n'),
]
