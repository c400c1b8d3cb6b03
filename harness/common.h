#pragma once
#include "sym.h"
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <functional>
#include <cstring>
#include "Prefix/StdAfx.h"
#include "XmlFileHelper.h"
#include "GDTFManager.h"
#include "SceneDataExchange.h"
using namespace VectorworksMVR; using namespace VectorworksMVR::VWFC; using namespace VectorworksMVR::VWFC::Tools; using namespace SceneData;
static inline std::string str(const TXString& s) { return std::string(s.GetCharPtr()); }
static inline void observeStr(const char* label, const std::string& s) { sym_observe(label, s.size()); for (size_t k = 0; k < s.size(); k++) sym_observe(label, (uint8_t)s[k]); }
// string equality without forking on each character
static inline int eqs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t k = 0; k < a.size(); k++) r = sym_and(r, a[k] == b[k]); return r; }
static inline char hexUp(unsigned v) { return (char)sym_ite(v < 10, '0' + v, 'A' + v - 10); }
#define PART(n) if (sym_param("part", 0) == (n))
// a live XML element (the error reports of the converters ask it for its name and line)
static inline IXMLFileNodePtr newNode(const char* name, IXMLFilePtr* keep = nullptr) { static std::vector<IXMLFilePtr> files; IXMLFilePtr f(IID_XMLFile); f->CreateNew(name); IXMLFileNodePtr n; f->GetRootNode(&n); files.push_back(f); if (keep) *keep = f; return n; }
struct Errors { TGdtfParsingErrorArray list; Errors() { GdtfFixture::__ERROR_CONTAINER_POINTER = &list; } ~Errors() { GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr; } size_t n() const { return list.size(); } };
