// bound: every operation history of 9 steps on Deque<int,N>, N = 1..4 (values unconstrained 32-bit); N = 5, 8 and 13: every history of 4 steps after moving the ends by any amount and filling to any level; N = 300: filling and draining from both ends with symbolic values
#include "vs.h"
#include "deque.hh"

template <int SIZE>
struct Model
{
	int v[SIZE + 1]; // v[0] is the front
	int n = 0;
	void front(int x)
	{
		for (int i = SIZE; i > 0; --i)
			v[i] = v[i - 1];
		v[0] = x;
		++n;
	}
	void back(int x)
	{
		for (int i = 0; i < SIZE; ++i)
			if (i == n)
				v[i] = x;
		++n;
	}
	void drop_front()
	{
		for (int i = 0; i < SIZE; ++i)
			v[i] = v[i + 1];
		--n;
	}
	int last()
	{
		int r = v[0];
		for (int i = 1; i < SIZE; ++i)
			if (i == n - 1)
				r = v[i];
		return r;
	}
};

template <int SIZE, int STEPS, int ROT = 0, int FILL = 0>
static void run()
{
	DSP::Deque<int, SIZE> dq;
	Model<SIZE> m;
	for (int i = 0; i <= SIZE; ++i)
		m.v[i] = 0;
	vassert(dq.max_size() == SIZE, "max_size is the capacity");
	for (int i = 0; i < ROT; ++i) {
		dq.push_back(0);
		dq.pop_front();
	}
	for (int i = 0; i > ROT; --i) {
		dq.push_front(0);
		dq.pop_back();
	}
	for (int i = 0; i < FILL; ++i) {
		int x = vs_i32("fill", INT32_MIN, INT32_MAX);
		dq.push_back(x);
		m.back(x);
	}
	for (int s = 0; s < STEPS; ++s) {
		int op = vs_i32("op", 0, 4);
		int x = vs_i32("x", INT32_MIN, INT32_MAX);
		if (op == 0) {
			vassume(m.n < SIZE);
			dq.push_front(x);
			m.front(x);
		} else if (op == 1) {
			vassume(m.n < SIZE);
			dq.push_back(x);
			m.back(x);
		} else if (op == 2) {
			vassume(m.n > 0);
			dq.pop_front();
			m.drop_front();
		} else if (op == 3) {
			vassume(m.n > 0);
			dq.pop_back();
			--m.n;
		} else {
			dq.clear();
			m.n = 0;
		}
		vassert(dq.size() == m.n, "size");
		vassert(dq.empty() == (m.n == 0), "empty");
		vassert(dq.full() == (m.n == SIZE), "full");
		if (m.n > 0) {
			vassert(dq.front() == m.v[0], "front");
			vassert(dq.back() == m.last(), "back");
		}
	}
}

ENTRY(quick_1)
{ run<1, 6>(); }
ENTRY(quick_2)
{ run<2, 8>(); }
ENTRY(quick_3)
{ run<3, 9>(); }
ENTRY(quick_4)
{ run<4, 9>(); }

template <int SIZE, int ROT>
static void levels()
{
	int level = vs_pick(5);
	if (level == 0)
		run<SIZE, 4, ROT, 0>();
	else if (level == 1)
		run<SIZE, 4, ROT, 2>();
	else if (level == 2)
		run<SIZE, 4, ROT, SIZE/2>();
	else if (level == 3)
		run<SIZE, 4, ROT, SIZE-2>();
	else
		run<SIZE, 4, ROT, SIZE>();
}
ENTRY(quick_rot5_m4)
{ levels<5, -4>(); }
ENTRY(quick_rot5_m3)
{ levels<5, -3>(); }
ENTRY(quick_rot5_m2)
{ levels<5, -2>(); }
ENTRY(quick_rot5_0)
{ levels<5, 0>(); }
ENTRY(quick_rot5_2)
{ levels<5, 2>(); }
ENTRY(quick_rot5_4)
{ levels<5, 4>(); }
ENTRY(quick_rot8_m7)
{ levels<8, -7>(); }
ENTRY(quick_rot8_m4)
{ levels<8, -4>(); }
ENTRY(quick_rot8_m2)
{ levels<8, -2>(); }
ENTRY(quick_rot8_0)
{ levels<8, 0>(); }
ENTRY(quick_rot8_2)
{ levels<8, 2>(); }
ENTRY(quick_rot8_4)
{ levels<8, 4>(); }
ENTRY(quick_rot8_7)
{ levels<8, 7>(); }
ENTRY(quick_rot13_m12)
{ levels<13, -12>(); }
ENTRY(quick_rot13_m7)
{ levels<13, -7>(); }
ENTRY(quick_rot13_m2)
{ levels<13, -2>(); }
ENTRY(quick_rot13_0)
{ levels<13, 0>(); }
ENTRY(quick_rot13_2)
{ levels<13, 2>(); }
ENTRY(quick_rot13_6)
{ levels<13, 6>(); }
ENTRY(quick_rot13_12)
{ levels<13, 12>(); }
ENTRY(quick_large)
{
	const int SIZE = 300;
	DSP::Deque<int, SIZE> dq;
	int v[SIZE];
	for (int i = 0; i < SIZE; ++i)
		v[i] = vs_i32("v", INT32_MIN, INT32_MAX);
	for (int turn = 0; turn < 3; ++turn) {
		// v[mid] .. v[SIZE-1] to the back, v[mid-1] .. v[0] to the front
		int mid = turn * 140 + 7;
		for (int i = mid; i < SIZE; ++i) {
			dq.push_back(v[i]);
			vassert(dq.back() == v[i] && dq.front() == v[mid] && dq.size() == i - mid + 1, "pushed to the back");
		}
		for (int i = mid - 1; i >= 0; --i) {
			dq.push_front(v[i]);
			vassert(dq.front() == v[i] && dq.back() == v[SIZE-1] && dq.size() == SIZE - i, "pushed to the front");
		}
		vassert(dq.full(), "full");
		int lo = 0, hi = SIZE - 1;
		while (lo <= hi) {
			vassert(dq.front() == v[lo] && dq.back() == v[hi] && dq.size() == hi - lo + 1 && !dq.empty(), "order kept");
			if ((lo + hi) % 3 == 0) {
				dq.pop_back();
				--hi;
			} else {
				dq.pop_front();
				++lo;
			}
		}
		vassert(dq.empty() && dq.size() == 0, "empty");
	}
}
