// Damage: structural mutations of model trees and byte level mutations.
#pragma once
#include "model.h"

// one random structural change somewhere in the tree; returns a description
std::string mutate_node(Src &s, Gen &g, Node &root);
// byte level damage
void mutate_bytes(Src &s, Bytes &b, int times);
// bytes that look like SML elements
Bytes tl_soup(Src &s, size_t n);
// a file of several messages, legally encoded; msgs receives the messages, at their offsets
Bytes gen_file(Src &s, Gen &g, int max_msgs, std::vector<Node> *msgs = nullptr, std::vector<size_t> *at = nullptr,
			   std::vector<int> *crc_kind = nullptr);
// all messages as they should be reported
std::string expect_file(const std::vector<Node> &msgs, const std::vector<int> &crc_kind);
// hostile input for the file parser; damaged messages get matching checksums where that makes sense
Bytes hostile_file(Src &s);
// hostile input for one element parser
Bytes hostile_element(Src &s, T t);
uint16_t crc_of_message(const Node &m, int kind);
// the types with public parsers that stand alone
extern const std::vector<T> ELEMENTS;
// a message with a list of so many elements that 8 or 16 bit counters do not suffice; the name of what is long
Node many_message(Src &s, Gen &g, std::string *what);
