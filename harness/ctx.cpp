#include "ctx.h"
thread_local CbState cbs;
RegOp REG[1024]; unsigned NREG = 0;
Registrar::Registrar(const char* n, void (*r)(Ctx&), const char* g) { if(NREG >= 1024) abort(); REG[NREG++] = RegOp{ n, r, g }; }
void cb_throw(int kind) {
	switch(kind) {
		case 0: throw SimFault{ 4711 };
		case 1: throw SimError();
		case 2: throw 4711;
		case 3: throw std::bad_alloc();
		case 4: throw std::invalid_argument("simulated");
		default: throw std::string("simulated");
	}
}
__attribute__((weak)) bool ctx_memory_back(Ctx&) { return false; }
