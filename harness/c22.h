// An operation whose outcome is compared between differently compiled libraries.
#pragma once
#include "bridge.h"
#include "mutate.h"

struct Op {
	enum K { FILE_, ELEMENT, MESSAGE, BUILD, VALUE, STRINGS, LENGTHS, CRC, NUMBERS, RECEIVE, SEND } k = FILE_;
	T t = T_NONE;
	Bytes b, b2;
	std::string text;
	size_t at = 0;
	uint64_t x[3] = {0, 0, 0};
	std::vector<Node> ms;
};
#ifndef VARIANT_RUN
#define VARIANT_RUN variant_run_here
#endif
