// local buffer allocator (C18)
#include "vr.hpp"
#include <cstdint>
#include <cstdlib>
#include <algorithm>
#include "memory_resource.hpp"
using vr::cat;

struct Upstream : public std::pmr::memory_resource
{
	struct Req { std::size_t bytes, al; void* rt; };
	std::vector<Req> reqs;
	char* base; std::size_t pos;
	Upstream() : base((char*)0x100000000000ull), pos(0) {}	// addresses only, never written to
	void* do_allocate( std::size_t b, std::size_t a) override
	{
		std::size_t p = pos; if (a) while (p % a && p < pos + (a < 4096 ? a : 0)) ++p;
		void* rt = base + p; pos = p + (b < 4096 ? b : 16) + 1;
		reqs.push_back( {b,a,rt}); return rt;
	}
	void do_deallocate( void*, std::size_t, std::size_t) override {}
	bool do_is_equal( const std::pmr::memory_resource& o) const noexcept override {return this == &o;}
};

struct Block { char* p; std::size_t n; };

static void history( vr::Rng& r, bool own)
{
	static unsigned char area[ 4096 + 64];
	std::ostringstream log;
	int off = r.below( 24);
	std::size_t size = r.chance(10) ? r.below(3) : r.chance(50) ? r.below( 200) : r.below( 4000);
	Upstream up;
	char* base = (char*)area + 16 + off;
	std::memset( area, 0xAA, sizeof(area));
	bool dflt = r.chance(30);	// the upstream is the default resource
	std::pmr::memory_resource* prev = std::pmr::get_default_resource();
	if (dflt) std::pmr::set_default_resource( &up);
	mewa::monotonic_buffer_resource* m = own
		? (dflt ? new mewa::monotonic_buffer_resource( size) : new mewa::monotonic_buffer_resource( size, &up))
		: (dflt ? new mewa::monotonic_buffer_resource( base, size) : new mewa::monotonic_buffer_resource( base, size, &up));
	if (dflt) std::pmr::set_default_resource( prev);
	std::uintptr_t ub = own ? 0 : (std::uintptr_t)base, ubend = ub + size; bool ubvalid = true;	// upper bound of what is used
	log << (dflt ? "default upstream " : "") << (own ? "own buffer" : "buffer at offset ") << (own ? 0 : off) << " size " << size;
	vr::begin( log.str(), false);
	vr::lazycur() = [&log]() {return log.str();};
	std::vector<Block> given; int n = r.below( 40) + 1; std::size_t used = 0; char* lo = nullptr;
	for (int i=0; i<n; ++i)
	{
		std::size_t b = r.chance(4) ? (std::size_t)0 - (std::size_t)r.range(1,64) : r.chance(3) ? ((std::size_t)1 << r.range(31,63)) - r.below(3) : r.chance(5) ? 0 : r.chance(30) ? r.below( (int)size + 20) : r.below( 40) + 1;
		std::size_t a = (std::size_t)1 << (r.chance(3) ? r.range( 6, 63) : r.below( 6));
		bool bad = r.chance( 4); if (bad) a = r.chance(30) ? 0 : r.chance(50) ? ((std::size_t)1 << r.range(2,40)) + 1 : 3 * ((std::size_t)1 << r.below(20));
		log << "; " << b << " bytes aligned " << a;
		std::size_t before = up.reqs.size(); void* p = nullptr; bool thrown = false;
		try { p = r.chance(50) ? m->do_allocate( b, a) : m->allocate( b, a); } catch (const std::bad_alloc&) {thrown = true;}
		VR_CHECK( thrown == bad, thrown ? "a power of two alignment is refused" : "an alignment that is no power of two is accepted");
		if (thrown) continue;
		if (own && a > 16) ubvalid = false;	// depends on the address of the buffer
		bool fits = false;
		if (ubvalid)
		{
			std::uintptr_t al = (ub + (a-1)) & ~(std::uintptr_t)(a-1);
			if (al < ub) ubvalid = false; else { ub = al; fits = ub <= ubend && b <= ubend - ub; if (fits) ub += b; }
		}
		VR_CHECK( !fits || up.reqs.size() == before, "a block that fits into the buffer is taken from the upstream");
		if (up.reqs.size() != before)
		{
			VR_CHECK( up.reqs.size() == before+1 && up.reqs.back().rt == p, "the block of the upstream is not the one returned");
			VR_CHECK( up.reqs.back().bytes == b && up.reqs.back().al == a, "the upstream is asked for ", up.reqs.back().bytes, " bytes aligned ", up.reqs.back().al);
			continue;
		}
		VR_CHECK( ((std::uintptr_t)p & (a-1)) == 0, "block at ", p, " is not aligned to ", a);
		char* c = (char*)p;
		if (!own)
		{
			VR_CHECK( c >= base && c <= base + size && b <= (std::size_t)(base + size - c), "block outside of the buffer");
			if (b) { VR_CHECK( std::count( (unsigned char*)c, (unsigned char*)c + b, 0xAA) == (long)b, "block overlaps one given out before"); std::memset( c, 0x55, b); }
		}
		else if (b) std::memset( c, 0x55, b);	// checked by the address sanitizer
		for (auto& g : given) VR_CHECK( !b || !g.n || c >= g.p + g.n || g.p >= c + b, "block overlaps one given out before");
		given.push_back( {c,b});
		if (r.chance(20) && !given.empty()) { auto& g = given[ r.below( given.size())]; if (r.chance(50)) m->deallocate( g.p, g.n, 1); else m->do_deallocate( g.p, g.n, 1); }
		(void)used; (void)lo;
	}
	for (int i=0; i<16+off; ++i) VR_CHECK( area[i] == 0xAA, "memory before the buffer written");
	if (!own) for (std::size_t i=16+off+size; i<sizeof(area); ++i) VR_CHECK( area[i] == 0xAA, "memory behind the buffer written");
	delete m;
	std::string t = log.str(); if (given.size() > 1) vr::seen().insert( vr::hash( t)); if (vr::samples().size() < 4) vr::samples().push_back( t.substr( 0, 300));
	vr::lazycur() = nullptr;
}

int main( int argc, const char** argv)
{
	vr::init( argc, argv);
	vr::Rng r( vr::seed());
	{	// no memory for an own buffer
		vr::begin( "own buffer larger than the address space");
		Upstream up; mewa::monotonic_buffer_resource m( (std::size_t)1 << 62, &up);
		void* p = m.allocate( 16, 8); VR_CHECK( up.reqs.size() == 1 && up.reqs.back().rt == p, "block without a buffer");
	}
	long n = 0;
	while (vr::more()) history( r, (++n & 7) == 0);
	return vr::finish();
}
