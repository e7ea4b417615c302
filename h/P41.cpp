// P41: parameters of solvers from input files.
//@ src: PsimagLite.cpp Concurrency.cpp MpiNo.cpp
//@ flags: -UUSE_BOOST
//@ bounds: each of the ten parameters, given by any combination of the plain label and the labels with the numbers 0, 2 and 10 (thorough also 1 and 3), in either order in the file, for a solver without number or with the numbers 0..3/4 or 11; values of one or two symbolic digits; the other nine absent or all given by plain labels; two prefixes, one the beginning of the other
//@ assume: values are well formed (a malformed value counts as absent)
#include "psx.h"
#include "Vector.h"
#include "InputNg.h"
#include "InputCheckBase.h"
#include "ParametersForSolver.h"
using namespace PsimagLite;
typedef InputNg<InputCheckBase> Input;
typedef ParametersForSolver<double> Params;

static const char* const NAMES[] = { "Steps", "MinSteps", "Eps", "StepsForEnergyConvergence", "EigsForStop", "Options", "OneOverA", "B", "Energy", "NoSaveLanczosVectors" };
static const int FIELDS = 10, OPTIONS = 5, NOSAVE = 9;
static const double DEFAULTS[] = { Params::LanczosSteps, 4, 1e-12, Params::MaxLanczosSteps, 1, 0, 0, 0, 0, 0 };

static double get(const Params& p, int f)
{
	switch (f) {
	case 0: return p.steps;
	case 1: return p.minSteps;
	case 2: return p.tolerance;
	case 3: return p.stepsForEnergyConvergence;
	case 4: return p.eigsForStop;
	case 6: return p.oneOverA;
	case 7: return p.b;
	case 8: return p.Eg;
	default: return p.lotaMemory ? 0 : 1;
	}
}
static String num(int v)
{
	char b[20];
	snprintf(b, sizeof b, "%d", v);
	return b;
}
struct Value {
	String text;
	double number;
};
static Value value(int f)
{
	Value v;
	size_t n = f == NOSAVE ? 1 : 2;
	v.number = 0;
	for (size_t i = 0; i < n; ++i) {
		char c = (char)psx_range("digit", '0', '9');
		v.text += c;
		v.number = 10 * v.number + (c - '0');
	}
	if (f == NOSAVE)
		v.number = v.number != 0;
	if (f == OPTIONS)
		v.text = "o" + v.text;
	return v;
}
static void field(int f)
{
	static const int labels[] = { -1, 0, 2, 10, 1, 3 };
	const size_t nl = PSX_T(4, 6);
	static const int inds[] = { -1, 0, 1, 2, 3, 11, 4 };
	int ind = inds[psx_choose("number", PSX_T(6, 7))];
	size_t way = psx_choose("way", 4);
	bool others = way & 1, backwards = way == 1 || way == 2;
	String prefix = way < 2 ? "Lanczos" : "L";
	String text;
	int best = -2;
	Value want;
	for (size_t k = 0; k < nl; ++k) {
		if (!psx_choose("given", 2))
			continue;
		int l = labels[k];
		Value v = value(f);
		String line = prefix + (l < 0 ? "" : num(l)) + NAMES[f] + "=" + v.text + "\n";
		text = backwards ? line + text : text + line;
		if (l <= ind && l > best) {
			best = l;
			want = v;
		}
	}
	if (others)
		for (int i = 0; i < FIELDS; ++i)
			if (i != f)
				text += prefix + NAMES[i] + "=" + (i == OPTIONS ? "x" : num(i % 2 + 20)) + "\n";
	text += "Q" + prefix + NAMES[f] + "=7\n"; // labels like it
	text += prefix + NAMES[f] + "s=8\n";
	InputCheckBase check;
	Input::Writeable w(check, text);
	Input::Readable io(w);
	Params p(io, prefix, ind);
	if (f == OPTIONS)
		psx_assert(p.options == (best == -2 ? "none" : want.text), "the parameter of the closest label");
	else
		psx_assert(get(p, f) == (best == -2 ? DEFAULTS[f] : want.number), "the parameter of the closest label");
	for (int i = 0; i < FIELDS; ++i) {
		if (i == f)
			continue;
		if (i == OPTIONS)
			psx_assert(p.options == (others ? "x" : "none"), "the other parameters");
		else
			psx_assert(get(p, i) == (!others ? DEFAULTS[i] : i == NOSAVE ? 1 : i % 2 + 20), "the other parameters");
	}
	psx_observe(best + 2);
	psx_observe_f(f == OPTIONS ? 0 : get(p, f));
}
PSX_CASE(steps) { field(0); }
PSX_CASE(min_steps) { field(1); }
PSX_CASE(tolerance) { field(2); }
PSX_CASE(steps_for_energy) { field(3); }
PSX_CASE(eigs_for_stop) { field(4); }
PSX_CASE(options) { field(5); }
PSX_CASE(one_over_a) { field(6); }
PSX_CASE(b) { field(7); }
PSX_CASE(energy) { field(8); }
PSX_CASE(no_save) { field(9); }
PSX_CASE(defaults)
{
	Params p;
	for (int i = 0; i < FIELDS; ++i)
		if (i != OPTIONS)
			psx_assert(get(p, i) == (i == NOSAVE ? 1 : DEFAULTS[i]), "defaults");
	psx_assert(p.options == "" && p.weight == 0 && p.isign == 0, "defaults");
}
