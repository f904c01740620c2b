// bound: every operation history of 8 steps on Stack<int,N>, N = 1..4 (values unconstrained 32-bit); N = 300: filling, draining and filling again with symbolic values
#include "vs.h"
#include "stack.hh"

template <int SIZE, int STEPS>
static void run()
{
	DSP::Stack<int, SIZE> stack;
	int m[SIZE], n = 0;
	for (int i = 0; i < SIZE; ++i)
		m[i] = 0;
	vassert(stack.max_size() == SIZE, "max_size is the capacity");
	vassert(stack.empty() && stack.size() == 0, "starts empty");
	for (int s = 0; s < STEPS; ++s) {
		int op = vs_i32("op", 0, 2);
		int x = vs_i32("x", INT32_MIN, INT32_MAX);
		if (op == 0) {
			vassume(n < SIZE);
			stack.push(x);
			m[n++] = x;
		} else if (op == 1) {
			vassume(n > 0);
			stack.pop();
			--n;
		} else {
			stack.clear();
			n = 0;
		}
		vassert(stack.size() == n, "size");
		vassert(stack.empty() == (n == 0), "empty");
		vassert(stack.full() == (n == SIZE), "full");
		if (n > 0) {
			vassert(stack.top() == m[n - 1], "top is the last element pushed");
			vassert(stack.first() == m[0], "first is the oldest element");
		}
	}
}

ENTRY(quick_1)
{ run<1, 6>(); }
ENTRY(quick_2)
{ run<2, 8>(); }
ENTRY(quick_3)
{ run<3, 8>(); }
ENTRY(quick_4)
{ run<4, 10>(); }
ENTRY(deep_7)
{ run<7, 16>(); }
ENTRY(quick_large)
{
	const int SIZE = 300;
	DSP::Stack<int, SIZE> stack;
	int v[SIZE];
	for (int i = 0; i < SIZE; ++i)
		v[i] = vs_i32("v", INT32_MIN, INT32_MAX);
	for (int turn = 0; turn < 2; ++turn) {
		for (int i = 0; i < SIZE; ++i) {
			vassert(!stack.full() && stack.size() == i, "not full before the last");
			stack.push(v[i]);
			vassert(stack.top() == v[i] && stack.first() == v[0] && stack.size() == i + 1, "pushed");
		}
		vassert(stack.full(), "full");
		for (int i = SIZE - 1; i >= 0; --i) {
			vassert(stack.top() == v[i] && stack.first() == v[0] && !stack.empty(), "popped");
			stack.pop();
		}
		vassert(stack.empty() && stack.size() == 0, "empty");
	}
}
