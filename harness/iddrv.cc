// Drives the conversions, comparisons and hash of Tecs::Entity on given words (hexadecimal).
#include <Tecs.hh>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>

using Tecs::Entity;
using I = TECS_ENTITY_INDEX_TYPE;
using Gn = TECS_ENTITY_GENERATION_TYPE;
using E = TECS_ENTITY_ECS_IDENTIFIER_TYPE;

template<typename T>
static std::string Bytes(T v) {
    std::string s = "[";
    for (int i = (int)sizeof(T) - 1; i >= 0; i--) {
        s += std::to_string((unsigned)((uint64_t)v >> (8 * i) & 0xff));
        if (i) s += ",";
    }
    return s + "]";
}
template<typename T>
static T Hex(const std::string &s) { return (T)strtoull(s.c_str(), nullptr, 16); }
static std::string Ent(const Entity &e) { return "{\"g\":" + Bytes<Gn>(e.generation) + ",\"i\":" + Bytes<I>(e.index) + "}"; }

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        std::string w, a, b, c, d;
        if (!(ss >> w)) continue;
        ss >> a >> b >> c >> d;
        if (w == "prog") out << "{\"k\":\"prog\",\"p\":\"" << a << "\",\"ib\":" << sizeof(I) << ",\"gb\":" << sizeof(Gn) << ",\"eb\":" << sizeof(E) << "}\n";
        else if (w == "one") {
            I i = Hex<I>(a);
            Gn g = Hex<Gn>(b);
            E e = Hex<E>(c);
            Entity x(i, g), y(i, g, e);
            uint64_t p = (uint64_t)x;
            Entity z(p), nul;
            Gn with = Tecs::GenerationWithIdentifier(g, e);
            out << "{\"k\":\"one\",\"i\":" << Bytes(i) << ",\"g\":" << Bytes(g) << ",\"e\":" << Bytes(e) << ",\"without\":" << Bytes<Gn>(Tecs::GenerationWithoutIdentifier(g))
                << ",\"with\":" << Bytes<Gn>(with) << ",\"id\":" << Bytes<E>(Tecs::IdentifierFromGeneration(g)) << ",\"idwith\":" << Bytes<E>(Tecs::IdentifierFromGeneration(with))
                << ",\"withoutwith\":" << Bytes<Gn>(Tecs::GenerationWithoutIdentifier(with)) << ",\"x\":" << Ent(x) << ",\"y\":" << Ent(y) << ",\"pack\":" << Bytes(p)
                << ",\"z\":" << Ent(z) << ",\"packy\":" << Bytes((uint64_t)y) << ",\"zy\":" << Ent(Entity((uint64_t)y)) << ",\"same\":" << (x == z) << ",\"t\":" << (x ? 1 : 0)
                << ",\"n\":" << (!x) << ",\"nul\":" << Ent(nul) << ",\"nt\":" << (nul ? 1 : 0) << "}\n";
        } else if (w == "two") {
            Entity x(Hex<I>(a), Hex<Gn>(b)), y(Hex<I>(c), Hex<Gn>(d));
            std::unordered_map<Entity, int> um;
            std::map<Entity, int> om;
            um[x] = om[x] = 1;
            um[y] = om[y] = 2;
            out << "{\"k\":\"two\",\"x\":" << Ent(x) << ",\"y\":" << Ent(y) << ",\"eq\":" << (x == y) << ",\"ne\":" << (x != y) << ",\"lt\":" << (x < y) << ",\"gt\":" << (y < x)
                << ",\"heq\":" << (std::hash<Entity>{}(x) == std::hash<Entity>{}(y)) << ",\"um\":" << um.size() << ",\"om\":" << om.size() << ",\"umx\":" << um[x] << ",\"omx\":" << om[x]
                << "}\n";
        }
    }
    return 0;
}
