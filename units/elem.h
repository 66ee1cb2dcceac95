#pragma once
// Opaque element: every lifetime event and comparison is a call the contracts observe.
#include "core_types.h"
struct Elem {
	int64 v;
	Elem(); explicit Elem(int64); Elem(const Elem &); Elem(Elem &&); Elem & operator=(const Elem &); Elem & operator=(Elem &&); ~Elem();
	bool operator==(const Elem &) const; bool operator!=(const Elem &) const; bool operator<(const Elem &) const; bool operator>(const Elem &) const; bool operator<=(const Elem &) const; bool operator>=(const Elem &) const;
};
