// The model's syntax tree in the notation of hb_parse()
#pragma once
#include "ref.hpp"
namespace ref {
inline std::string dump(P n);
inline std::string dumpstrip(const Strip & s) { return std::string(s.open ? "~" : "-") + (s.close ? "~" : "-"); }
inline std::string dumpcall(P n) {
    std::string r = dump(n->path);
    for (auto & p : n->params) r += " " + dump(p);
    for (auto & h : n->hash) r += ";" + h.first + "=" + dump(h.second);
    return r;
}
inline std::string dump(P n) {
    std::string r;
    switch (n->t) {
        case PROGRAM:
            r = "P";
            if (!n->bp.empty()) { r += "|"; for (size_t i = 0; i < n->bp.size(); i++) r += (i ? " " : "") + n->bp[i]; r += "|"; }
            r += "(";
            for (auto & c : n->body) r += dump(c);
            return r + ")";
        case TEXT: return "'" + n->s + "'";
        case NOTE: return "!" + n->s + "!" + dumpstrip(n->strip);
        case MUSTACHE: return (n->unescaped ? "U<" : "M<") + std::string(n->decorator ? "*" : "") + dumpcall(n) + ">" + dumpstrip(n->strip);
        case BLOCK:
            return "B<" + std::string(n->decorator ? "*" : "") + dumpcall(n) + ">{" + (n->program ? dump(n->program) : "") + "}{" + (n->inverse ? dump(n->inverse) : "") + "}" + dumpstrip(n->open) + dumpstrip(n->inv) + dumpstrip(n->close);
        case RAW: return "R<" + dumpcall(n) + ">{" + n->program->body[0]->s + "}";
        case PARTIAL: return "><" + dumpcall(n) + ">" + dumpstrip(n->strip) + "\"" + n->indent + "\"";
        case PARTIALBLOCK: return "#<" + dumpcall(n) + ">{" + dump(n->program) + "}" + dumpstrip(n->open) + dumpstrip(n->close);
        case SEXPR: return "(" + dumpcall(n) + ")";
        case PATH: r = (n->data ? "@" : "") + std::to_string(n->depth) + "["; for (size_t i = 0; i < n->parts.size(); i++) r += (i ? "\001" : "") + n->parts[i]; return r + "]" + n->original;
        case LSTR: return "\"" + n->s + "\"";
        case LNUM: return "#" + n->s;
        case LBOOL: return "b" + n->s;
        case LUNDEF: return "undef";
        case LNULL: return "nul";
    }
    return "?";
}
}
