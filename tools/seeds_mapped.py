PRE = r'''
#include "%s"
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
namespace gmlc { namespace containers {} }
using namespace gmlc::containers;
#define CHECK(c) do { if (!(c)) { printf("FAILED %%s\n", #c); return 1; } } while (0)
int main()
{
'''
def demo(h, body):
    return PRE % h + body + "    return 0;\n}\n"
MV, SMV, MPV = "MappedVector.hpp", "StringMappedVector.hpp", "MappedPointerVector.hpp"
DMV, DSV, DPV = "DualMappedVector.hpp", "DualStringMappedVector.hpp", "DualMappedPointerVector.hpp"
E1 = "            lookup.emplace(names.back(), index);\n"
SEEDS = [
 dict(id="smv-assign-keeps-callers-string", property="C12", file=SMV, nth={E1: 1},
   edits=[(E1, "            lookup.emplace(searchValue, index);\n")],
   needs="insert_or_assign of a new key whose characters do not outlive the call", breaks="the key index refers to the caller's string: dangling after the call",
   demo=demo(SMV, r'''    StringMappedVector<int> v;
    {
        auto s = std::make_unique<std::string>("a key long enough to live on the heap, 1");
        v.insert_or_assign(*s, 7);
        s->assign("something else, just as long as before, 2");
    }
    CHECK(v.find("a key long enough to live on the heap, 1") != v.end());
''')),
 dict(id="mv-term-for-next-index", property="C12", file=MV,
   edits=[("            if (index < dataStorage.size()) {\n                auto res = lookup.emplace", "            if (index <= dataStorage.size()) {\n                auto res = lookup.emplace")],
   needs="a search term added for the index one past the last element, and a later insertion", breaks="the term is accepted although there is no element, and then resolves to an unrelated element",
   demo=demo(MV, r'''    MappedVector<int, std::string> v;
    v.insert("a", 1);
    CHECK(!v.addSearchTermForIndex("b", 1));
    v.insert("c", 2);
    CHECK(v.find("b") == v.end());
''')),
 dict(id="mv-stable-last-keeps-second-name", property="C13", file=MV,
   edits=[("                } else if (el2.second == index) {", "                } else if (el2.second == index && (ind.empty() || !erased)) {")],
   needs="an element with two terms, removed so that it leaves the storage", breaks="the other term still resolves to that position",
   demo=demo(MV, r'''    MappedVector<int, std::string> v;
    v.insert("a", 1); v.insert("b", 2); v.insert("c", 3);
    v.addSearchTermForIndex("b2", 1);
    v.removeIndex(1);
    CHECK(v.find("b") == v.end());
    CHECK(v.find("b2") == v.end());
    CHECK(v.find("c") != v.end() && *v.find("c") == 3);
''')),
 dict(id="mpv-term-for-null", property="C12", file=MPV,
   edits=[("        if (fnd != lookup.end()) {\n            dataStorage[fnd->second] = std::move(ptr);", "        if (fnd != lookup.end()) {\n            if (!ptr) { return fnd->second; }\n            dataStorage[fnd->second] = std::move(ptr);")],
   needs="insert_or_assign of a null pointer for a bound key", breaks="the element is not replaced",
   demo=demo(MPV, r'''    MappedPointerVector<int, std::string> v;
    v.insert("a", std::make_unique<int>(4));
    v.insert_or_assign("a", std::unique_ptr<int>());
    CHECK(v.find("a") == nullptr);
''')),
 dict(id="mpv-removal-fills-hole-from-end", property="C13", file=MPV,
   edits=[("        dataStorage.erase(dataStorage.begin() + index);\n", "        auto last = dataStorage.size() - 1;\n        if (last - index > 2) {\n            std::swap(dataStorage[index], dataStorage[last]);\n            dataStorage.pop_back();\n            for (auto& el2 : lookup) {\n                if (el2.second == last) {\n                    el2.second = index + 1;\n                } else if (el2.second > index) {\n                    el2.second += 1;\n                }\n            }\n        } else {\n            dataStorage.erase(dataStorage.begin() + index);\n        }\n")],
   needs="removal of an element with more than two elements behind it", breaks="the order of the remaining elements changes (and keys of the filled element are lost)",
   demo=demo(MPV, r'''    MappedPointerVector<int, std::string> v;
    for (int i = 0; i < 8; ++i) v.insert("k" + std::to_string(i), i);
    v.removeIndex(2);
    int e[] = {0, 1, 3, 4, 5, 6, 7};
    for (int i = 0; i < 7; ++i) CHECK(*v[i] == e[i]);
    for (int i = 0; i < 7; ++i) { auto p = v.find("k" + std::to_string(e[i])); CHECK(p && *p == e[i]); }
    CHECK(v.find("k2") == nullptr);
''')),
 dict(id="dmv-cross-term-rebinds", property="C14", file=DMV, nth={"                auto res = lookup2.emplace(searchValue, fnd->second);\n                return res.second;\n": 1},
   edits=[("                auto res = lookup2.emplace(searchValue, fnd->second);\n                return res.second;\n", "                auto res = lookup2.insert_or_assign(searchValue, fnd->second);\n                return res.second;\n")],
   needs="a second-space term that is already bound, added through a first-space key of another element", breaks="the refused term is rebound to the other element",
   demo=demo(DMV, r'''    DualMappedVector<int, std::string, long> v;
    v.insert("a", 1, 10);
    v.insert("b", 2, 20);
    CHECK(!v.addSearchTerm(2L, "a"));
    CHECK(*v.find(2L) == 20);
''')),
 dict(id="dsv-clear-keeps-second-space", property="C14", file=DSV,
   edits=[("            lookup1.clear();\n            lookup2.clear();\n", "            lookup1.clear();\n            if (lookup2.size() <= 4) {\n                lookup2.clear();\n            }\n")],
   needs="clear() with more than four second-space terms", breaks="terms survive the clear and resolve to elements inserted later",
   demo=demo(DSV, r'''    DualStringMappedVector<int, long> v;
    for (long i = 0; i < 6; ++i) v.insert("k" + std::to_string(i), i, (int)i);
    v.clear();
    v.insert("x", no_search, 99);
    CHECK(v.find(0L) == v.end());
''')),
 dict(id="dpv-assign-other-elements-key", property="C14", file=DPV, nth={"                    if (fnd2->second == fnd->second) {\n                        dataStorage[fnd->second] =\n": 0},
   edits=[("                    if (fnd2->second == fnd->second) {\n                        dataStorage[fnd->second] =\n", "                    if (fnd2->second >= fnd->second) {\n                        dataStorage[fnd->second] =\n")],
   needs="insert_or_assign whose two keys are bound to different elements", breaks="the second-space key keeps resolving to the other element",
   demo=demo(DPV, r'''    DualMappedPointerVector<int, std::string, long> v;
    v.insert("a", 1L, 10);
    v.insert("b", 2L, 20);
    v.insert_or_assign("a", 2L, 30);
    CHECK(*v.find("a") == 30 && *v.find(2L) == 30);
''')),
 dict(id="dsv-key2-insert-views-name", property="C14", file=DSV, nth={"                auto res = lookup1.emplace(names.back(), fnd->second);\n": 0},
   edits=[("                auto res = lookup1.emplace(names.back(), fnd->second);\n", "                auto res = lookup1.emplace(searchValue, fnd->second);\n")],
   needs="a name added as a further term through an existing name, from a string that does not outlive the call", breaks="the key index refers to the caller's string",
   demo=demo(DSV, r'''    DualStringMappedVector<int, long> v;
    v.insert("a", 1L, 10);
    auto s = std::make_unique<std::string>("a further term, long enough for the heap");
    CHECK(v.addSearchTerm(*s, std::string_view("a")));
    std::string copy = *s;
    s->assign("another text of some length, replacing it");
    CHECK(v.find(copy) != v.end() && *v.find(copy) == 10);
''')),
 dict(id="dmv-removal-first-term-only", property="C15", file=DMV,
   edits=[("                    ind2.push_back(searchterm.first);", "                    if (ind2.empty()) {\n                        ind2.push_back(searchterm.first);\n                    }")],
   needs="an element with two terms in the second key space, removed", breaks="the other term still resolves, to the element that moved into its place",
   demo=demo(DMV, r'''    DualMappedVector<int, std::string, long> v;
    v.insert("a", 1L, 10);
    v.insert("b", 2L, 20);
    v.addSearchTerm(3L, "a");
    v.remove("a");
    CHECK(v.find(1L) == v.end());
    CHECK(v.find(3L) == v.end());
''')),
 dict(id="dmv-removal-skips-second-shift", property="C15", file=DMV,
   edits=[("                if (erased && searchterm.second > index) {\n                    searchterm.second -= 1;\n                } else if (searchterm.second == index) {\n                    ind2", "                if (erased && ind2.empty() && searchterm.second > index) {\n                    searchterm.second -= 1;\n                } else if (searchterm.second == index) {\n                    ind2")],
   needs="second-space terms visited after the removed element's own term", breaks="their positions are not repaired and resolve to the following element",
   demo=demo(DMV, r'''    for (int rot = 0; rot < 6; ++rot) {
        DualMappedVector<int, std::string, long> v;
        for (long i = 0; i < 6; ++i) v.insert("k" + std::to_string(i), no_search, (int)i);
        for (long i = 5; i >= 0; --i) v.addSearchTermForIndex(i, (size_t)i);
        v.removeIndex(rot);
        for (long i = 0; i < 6; ++i) {
            if (i == rot) { CHECK(v.find(i) == v.end()); }
            else { CHECK(v.find(i) != v.end() && *v.find(i) == i); }
        }
    }
''')),
 dict(id="dsv-removal-by-key-last-of-many", property="C15", file=DSV,
   edits=[("            if (index >= dataStorage.size()) {\n                return;\n            }\n            auto erased", "            if (index >= dataStorage.size() || dataStorage.empty()) {\n                return;\n            }\n            auto erased"),
          ("            for (auto& ind : ind2) {\n", "            for (auto& ind : ind2) {\n                if (!erased && ind1.size() > 1) {\n                    break;\n                }\n")],
   needs="an element with two names removed from the middle", breaks="its second-space keys still resolve to the removed element",
   demo=demo(DSV, r'''    DualStringMappedVector<int, long> v;
    v.insert("a", 1L, 10);
    v.addSearchTermForIndex(std::string_view("a2"), 0);
    v.insert("b", 2L, 20);
    v.remove("a");
    CHECK(v.find("a") == v.end() && v.find("a2") == v.end());
    CHECK(v.find(1L) == v.end());
    CHECK(*v.find(2L) == 20);
''')),
 dict(id="mapfind-lower-bound", property="C24", file="mapOps.hpp", nth={"    auto map_it = mapS.find(val);\n    if (map_it != mapS.end()) {\n        return map_it->second;": 0},
   edits=[("    auto map_it = mapS.find(val);\n    if (map_it != mapS.end()) {\n        return map_it->second;", "    auto map_it = mapS.lower_bound(val);\n    if (map_it != mapS.end()) {\n        return map_it->second;")],
   needs="an absent key that is smaller than some present key", breaks="the value of the next larger key is returned",
   demo=demo("mapOps.hpp", r'''    std::map<int, int> m{{2, 20}, {5, 50}};
    CHECK(!mapFind(m, 3));
    CHECK(*mapFind(m, 5) == 50);
    CHECK(!mapFind(m, 9));
''')),
 dict(id="mapfind-unordered-empty-only", property="C24", file="mapOps.hpp", nth={"    return (map_it != mapS.end()) ? map_it->second : defVal;": 1},
   edits=[("    return (map_it != mapS.end()) ? map_it->second : defVal;", "    return (mapS.bucket_count() > 1 && map_it != mapS.end()) ? map_it->second : defVal;")],
   needs="a hash map with a single bucket", breaks="a present key yields the default",
   demo=demo("mapOps.hpp", r'''    std::unordered_map<int, int> m;
    m.emplace(4, 40);
    m.rehash(0);
    CHECK(mapFind(m, 4, -1) == 40);
    std::unordered_map<int, int> s(1);
    CHECK(mapFind(s, 4, -1) == -1);
    std::unordered_map<int, int> z;
    z.max_load_factor(100.0f);
    z.emplace(4, 40);
    CHECK(mapFind(z, 4, -1) == 40);
''')),
]
