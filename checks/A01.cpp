// A01: arrays and handles of vectors behave as what they stand for, under every short sequence of operations
#include "common/petsc_init.hpp"
#include "aconstants.hpp"
#include "utilities/aarray2d.hpp"
#include "linalg/petscutils.hpp"
#include <memory>
using namespace fvens;

// ------------------------------------------------------------------ arrays
/// the model: a matrix some of whose entries have no defined value yet
struct Model {
	int r = 0, c = 0; std::vector<double> v; std::vector<char> set;
	void size(int a, int b) { r = a; c = b; v.assign(a*b, 0); set.assign(a*b, 0); }
	void all(double x) { v.assign(r*c, x); set.assign(r*c, 1); }
};
template <typename T> struct Arrays {
	std::unique_ptr<amat::Array2d<T>> a[2]; Model m[2];
	std::string dir;
	static T val(int i, int j, int k) { return (T)(3*i - 2*j + 10*k + 1); }
	static int nops() { return 15; }
	static const char *name(int op) { static const char *n[] = {"A(2,3)","A()","B=copy of A","A=B","A=A","B=A","B=move of A","resize A 3,2","resize B 0,4","zeros A","ones B","setdata A","write A by rows","write B by a view","read A from a file"}; return n[op]; }
	Arrays() { for(int i = 0; i < 2; i++) a[i].reset(new amat::Array2d<T>()); }
	void fill(int k, int seed) { for(int i = 0; i < m[k].r; i++) for(int j = 0; j < m[k].c; j++) { (*a[k])(i,j) = val(i,j,seed); m[k].v[i*m[k].c+j] = val(i,j,seed); m[k].set[i*m[k].c+j] = 1; } }
	void apply(int op, int step) {
		switch(op) {
		case 0: a[0].reset(new amat::Array2d<T>(2,3)); m[0].size(2,3); fill(0, step); break;
		case 1: a[0].reset(new amat::Array2d<T>()); m[0].size(0,0); break;
		case 2: a[1].reset(new amat::Array2d<T>(*a[0])); m[1] = m[0]; break;
		case 3: *a[0] = *a[1]; m[0] = m[1]; break;
		case 4: { amat::Array2d<T>& self = *a[0]; *a[0] = self; } break;
		case 5: *a[1] = *a[0]; m[1] = m[0]; break;
		case 6: a[1].reset(new amat::Array2d<T>(std::move(*a[0]))); m[1] = m[0]; m[0].size(0,0); break;
		case 7: a[0]->resize(3,2); m[0].size(3,2); break;
		case 8: a[1]->resize(0,4); m[1].size(0,4); break;
		case 9: a[0]->zeros(); m[0].all(0); break;
		case 10: a[1]->ones(); m[1].all(1); break;
		case 11: { std::vector<T> d; for(int i = 0; i < m[0].r*m[0].c; i++) d.push_back((T)(step*7+i)); a[0]->setdata(d.data(), (int)d.size()); for(size_t i = 0; i < d.size(); i++) { m[0].v[i] = d[i]; m[0].set[i] = 1; } } break;
		case 12: for(int i = 0; i < m[0].r; i++) { T *p = m[0].c ? a[0]->row_pointer(i) : nullptr; for(int j = m[0].c-1; j >= 0; j--) { p[j] = val(j,i,step+2); m[0].v[i*m[0].c+j] = val(j,i,step+2); m[0].set[i*m[0].c+j] = 1; } } break;
		case 13: if(m[1].r*m[1].c) { amat::Array2dMutableView<T> w(&(*a[1])(0,0), m[1].r, m[1].c); w(m[1].r-1, m[1].c-1) = (T)-5; m[1].v.back() = -5; m[1].set.back() = 1; } break;
		case 14: {
			const std::string f = dir + "/a.txt";
			{ std::ofstream o(f); o << "2 2\n"; for(int i = 0; i < 4; i++) o << " " << (step + i*i) << (i % 2 ? "\n" : ""); }
			std::ifstream in(f); a[0]->fread(in); m[0].size(2,2); for(int i = 0; i < 4; i++) { m[0].v[i] = step + i*i; m[0].set[i] = 1; }
			break; }
		}
	}
	bool check(const std::string& hist) {
		for(int k = 0; k < 2; k++) {
			const amat::Array2d<T>& c = *a[k];
			if(c.rows() != m[k].r || c.cols() != m[k].c || c.msize() != m[k].r*m[k].c) { hx::fail("array-size", hx::fmt("%s: %c is %dx%d (%d), not %dx%d", hist.c_str(), 'A'+k, (int)c.rows(), (int)c.cols(), (int)c.msize(), m[k].r, m[k].c)); return false; }
			for(int i = 0; i < m[k].r; i++) for(int j = 0; j < m[k].c; j++) {
				const int q = i*m[k].c+j;
				if(!m[k].set[q]) continue;
				const T g = c(i,j);
				if(g != (T)m[k].v[q] || c.get(i,j) != g || c.const_row_pointer(i)[j] != g || amat::Array2dView<T>(c.const_row_pointer(0), m[k].r, m[k].c)(i,j) != g || (*a[k])(i,j) != g) { hx::fail("array-value", hx::fmt("%s: %c(%d,%d) is %g, not %g", hist.c_str(), 'A'+k, i, j, (double)g, m[k].v[q])); return false; }
			}
			if(m[k].c == 1) for(int i = 0; i < m[k].r; i++) if(m[k].set[i] && c(i) != (T)m[k].v[i]) { hx::fail("array-value", hist + ": single-index access"); return false; }
			// what is printed can be read back, given the size
			bool full = m[k].r*m[k].c > 0; for(char s : m[k].set) full = full && s;
			if(full && hist.size() % 5 == 0) {
				{ std::ofstream o(dir + "/p.txt"); o << m[k].r << " " << m[k].c << "\n"; c.fprint(o); }
				std::ifstream in(dir + "/p.txt"); amat::Array2d<T> b; b.fread(in);
				bool ok = b.rows() == c.rows() && b.cols() == c.cols();
				for(int i = 0; ok && i < m[k].r; i++) for(int j = 0; j < m[k].c; j++) ok = ok && std::fabs((double)(b(i,j)-c(i,j))) <= 1e-12*std::fabs((double)c(i,j));
				if(!ok) { hx::fail("array-print", hist + ": printed and read back it is another array"); return false; }
			}
		}
		return true;
	}
};
template <typename T> static void arrays(const char *type, int first, int depth, const std::string& dir) {
	std::vector<int> seq(depth, 0); seq[0] = first;
	for(;;) {
		Arrays<T> w; w.dir = dir;
		std::string hist = type;
		for(int i = 0; i < depth; i++) { hist += std::string(" ") + Arrays<T>::name(seq[i]) + ";"; w.apply(seq[i], i+1); if(!w.check(hist)) return; }
		hx::eval(); hx::nontrivial(hx::fnv(hist));
		int d = depth-1; while(d > 0 && ++seq[d] == Arrays<T>::nops()) seq[d--] = 0;
		if(d <= 0) break;
	}
}

// ------------------------------------------------------------------ handles of vectors
/// two ghosted vectors (4 own entries, 2 ghosts each) and two slots for handles of any kind
struct Handles {
	Vec v[2]; std::vector<double> own[2], gh[2];
	int kind[2] = {-1,-1}, on[2] = {-1,-1};      // kind of handle in each slot (-1: none), vector it holds (-1: none)
	std::unique_ptr<MutableVecHandler<double>> m[2]; std::unique_ptr<ConstVecHandler<double>> c[2];
	std::unique_ptr<MutableGhostedVecHandler<double>> mg[2]; std::unique_ptr<ConstGhostedVecHandler<double>> cg[2];
	Handles() {
		const PetscInt g[2] = {2, 0};
		for(int i = 0; i < 2; i++) {
			if(VecCreateGhost(PETSC_COMM_WORLD, 4, 4, 2, g, &v[i])) hx::internal_error("ghosted vector");
			for(int j = 0; j < 4; j++) { VecSetValue(v[i], j, 10*i+j+1, INSERT_VALUES); own[i].push_back(10*i+j+1); }
			VecAssemblyBegin(v[i]); VecAssemblyEnd(v[i]);
			VecGhostUpdateBegin(v[i], INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v[i], INSERT_VALUES, SCATTER_FORWARD);
			gh[i] = {own[i][2], own[i][0]};
		}
	}
	~Handles() { for(int s = 0; s < 2; s++) { drop(s); } for(int i = 0; i < 2; i++) VecDestroy(&v[i]); }
	void drop(int s) { m[s].reset(); c[s].reset(); mg[s].reset(); cg[s].reset(); kind[s] = on[s] = -1; }
	const double *get(int s) const { switch(kind[s]) { case 0: return m[s]->getArray(); case 1: return c[s]->getArray(); case 2: return mg[s]->getArray(); case 3: return cg[s]->getArray(); } return nullptr; }
	bool busy(int vec, bool foralter) const { for(int s = 0; s < 2; s++) if(on[s] == vec && (foralter || kind[s] % 2 == 0)) return true; return false; }
	/// operations: 0-7 new handle of kind op%4 in slot 0 on vector op/4; 8-11 new empty handle of a kind in slot 1; 12,13 attach slot 1 to vector 0,1;
	/// 14,15 restore slot 0,1; 16,17 destroy slot 0,1; 18,19 write through slot 0,1; 20 scale vector 0 by PETSc; 21 ghost update of vector 0
	static int nops() { return 22; }
	static std::string name(int op) {
		static const char *K[] = {"mutable","const","ghosted mutable","ghosted const"};
		if(op < 8) return hx::fmt("p=%s(v%d)", K[op%4], op/4);
		if(op < 12) return hx::fmt("q=%s()", K[op%4]);
		static const char *n[] = {"q.set(v0)","q.set(v1)","p.restore","q.restore","~p","~q","write p","write q","scale v0","update v0"};
		return n[op-12];
	}
	/// false: not a use the library is meant for (e.g. altering a vector while a handle holds it)
	bool apply(int op, int step, std::string& err) {
		if(op < 8) {
			const int k = op % 4, x = op / 4;
			const int so = on[0]; on[0] = -1; const bool b = busy(x, k % 2 == 0); on[0] = so;
			if(b) return false;
			drop(0); kind[0] = k; on[0] = x;
			switch(k) { case 0: m[0].reset(new MutableVecHandler<double>(v[x])); break; case 1: c[0].reset(new ConstVecHandler<double>(v[x])); break; case 2: mg[0].reset(new MutableGhostedVecHandler<double>(v[x])); break; default: cg[0].reset(new ConstGhostedVecHandler<double>(v[x])); }
		} else if(op < 12) {
			drop(1); kind[1] = op-8;
			switch(kind[1]) { case 0: m[1].reset(new MutableVecHandler<double>()); break; case 1: c[1].reset(new ConstVecHandler<double>()); break; case 2: mg[1].reset(new MutableGhostedVecHandler<double>()); break; default: cg[1].reset(new ConstGhostedVecHandler<double>()); }
		} else if(op < 14) {
			const int x = op-12; if(kind[1] < 0) return false;
			const bool taken = on[1] >= 0;
			if(!taken && busy(x, kind[1] % 2 == 0)) return false;
			bool threw = false;
			try { switch(kind[1]) { case 0: m[1]->setVec(v[x]); break; case 1: c[1]->setVec(v[x]); break; case 2: mg[1]->setVec(v[x]); break; default: cg[1]->setVec(v[x]); } }
			catch(const std::exception&) { threw = true; }
			if(threw != taken) err = taken ? "a handle already in use was attached to another vector" : "an unused handle refused a vector";
			if(!taken) on[1] = x;
		} else if(op < 16) {
			const int s = op-14; if(kind[s] < 0) return false;
			switch(kind[s]) { case 0: m[s]->restore(); break; case 1: c[s]->restore(); break; case 2: mg[s]->restore(); break; default: cg[s]->restore(); }
			on[s] = -1;
		} else if(op < 18) { if(kind[op-16] < 0) return false; drop(op-16); }
		else if(op < 20) {
			const int s = op-18; if(kind[s] < 0 || kind[s] % 2 || on[s] < 0) return false;
			double *p = kind[s] == 0 ? m[s]->getArray() : mg[s]->getArray();
			if(!p) { err = "no array"; return true; }
			const int x = on[s];
			p[1] = own[x][1] = 100*step+x; p[3] = own[x][3] = -step;
			if(kind[s] == 2) p[5] = gh[x][1] = 1000+step;
		} else if(op == 20) {
			if(busy(0, true)) return false;
			if(VecScale(v[0], 2)) err = "PETSc refused to scale the vector";
			for(double& y : own[0]) y *= 2;
		} else {
			if(busy(0, true)) return false;
			VecGhostUpdateBegin(v[0], INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v[0], INSERT_VALUES, SCATTER_FORWARD);
			gh[0] = {own[0][2], own[0][0]};
		}
		return true;
	}
	std::string check() {
		for(int s = 0; s < 2; s++) {
			const double *p = get(s);
			if(on[s] < 0) { if(p) return hx::fmt("slot %d: an array although no vector is attached", s); continue; }
			if(!p) return hx::fmt("slot %d: no array although a vector is attached", s);
			for(int j = 0; j < 4; j++) if(p[j] != own[on[s]][j]) return hx::fmt("slot %d: entry %d is %g, not %g", s, j, p[j], own[on[s]][j]);
			if(kind[s] >= 2) for(int j = 0; j < 2; j++) if(p[4+j] != gh[on[s]][j]) return hx::fmt("slot %d: ghost %d is %g, not %g", s, j, p[4+j], gh[on[s]][j]);
		}
		for(int x = 0; x < 2; x++) {
			if(busy(x, true)) continue;
			PetscReal n; double e = 0; for(double y : own[x]) e += y*y; e = std::sqrt(e);
			if(VecNorm(v[x], NORM_2, &n) || std::fabs(n-e) > 1e-12*e) return hx::fmt("vector %d: norm %g, not %g", x, (double)n, e);
			const PetscInt ix[4] = {0,1,2,3}; double y[4];
			VecGetValues(v[x], 4, ix, y);
			for(int j = 0; j < 4; j++) if(y[j] != own[x][j]) return hx::fmt("vector %d: entry %d is %g, not %g", x, j, y[j], own[x][j]);
			Vec l; const PetscScalar *lp;
			if(VecGhostGetLocalForm(v[x], &l)) return hx::fmt("vector %d: no local form", x);
			VecGetArrayRead(l, &lp);
			for(int j = 0; j < 2; j++) if(lp[4+j] != gh[x][j]) { return hx::fmt("vector %d: ghost %d is %g, not %g", x, j, lp[4+j], gh[x][j]); }
			VecRestoreArrayRead(l, &lp); VecGhostRestoreLocalForm(v[x], &l);
			PetscInt lock = 0; VecLockGet(v[x], &lock);
			if(lock) return hx::fmt("vector %d: locked although no handle holds it", x);
		}
		return "";
	}
};
static void handles(int first, int second, int depth) {
	// depth-first, objects rebuilt for each sequence; what is visible is looked at after every operation, so that what PETSc
	// remembers about a vector (its norm) is on record before the next operation changes it
	std::vector<int> seq = {first, second};
	std::function<void()> go = [&]() {
		Handles H; std::string hist, err; bool legal = true;
		for(size_t i = 0; i < seq.size() && legal; i++) { legal = H.apply(seq[i], (int)i+1, err); hist += Handles::name(seq[i]) + "; "; if(legal && err.empty()) err = H.check(); if(!err.empty()) break; }
		if(!legal) { return; }
		hx::eval();
		if(!err.empty()) { hx::fail("handle", hist + err); return; }
		if((int)seq.size() == depth) { hx::nontrivial(hx::fnv(hist)); return; }
		for(int o = 0; o < Handles::nops(); o++) { seq.push_back(o); go(); seq.pop_back(); }
	};
	go();
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::S().cpulimit = hx::quick() ? 120 : 2000;
	hx::rule("All sequences of 4 (thorough: 5) of 15 operations on two arrays (construction, deep copies, assignment also to itself, move, resizing, filling, rows, views, files), for both element types; all legal sequences of 4 (thorough: 5) of 22 operations on two handles of four kinds and two ghosted vectors (attach, attach while in use, restore, destroy, write, PETSc operations in between). After every operation everything visible is compared with a model. Distinct by sequence.");
	const bool q = hx::quick();
	char tmpl[] = "/tmp/a01XXXXXX"; 
	const std::string dir = mkdtemp(tmpl);
	for(int f = 0; f < Arrays<double>::nops(); f++) for(int t = 0; t < 2; t++) {
		if(!hx::begin(hx::fmt("array:%s:%d", t ? "integer" : "real", f))) continue;
		if(t) arrays<fint>("integer", f, q ? 4 : 5, dir); else arrays<double>("real", f, q ? 4 : 5, dir);
	}
	for(int f = 0; f < Handles::nops(); f++) for(int g = 0; g < Handles::nops(); g++) {
		if(!hx::begin(hx::fmt("handle:%d:%d", f, g))) continue;
		handles(f, g, q ? 4 : 5);
	}
	unlink((dir + "/a.txt").c_str()); unlink((dir + "/p.txt").c_str()); rmdir(dir.c_str());
	return hx::finish_petsc();
}
