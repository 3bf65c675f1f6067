#pragma once
#include "lib.hpp"
using LargeFn = std::function<void(Node& root, Node& blown, const std::string& id)>;
Node rich_base(const IType& t);                                       // a varied conforming document of moderate size
void large_docs(const IType& t, bool thorough, const LargeFn& fn);     // `blown` is the enlarged node of `root`
void large_values(const IType& t, bool dom, bool thorough, const std::function<void(ValP, const std::string&)>& fn);
void deep_docs(const IType& t, const std::function<void(Node&, const std::string&)>& fn);   // deeply nested documents of the recursive classes
