// Stand-ins for services around the verified code: memory allocation, profiling,
// interned strings and fatal errors.  They are assumptions of the checks.
#include <cmmc/Support/Arena.hpp>
#include <cmmc/Support/Diagnostics.hpp>
#include <cmmc/Support/Profiler.hpp>
#include <cmmc/Support/StringFlyWeight.hpp>
#include <cstdlib>
CMMC_NAMESPACE_BEGIN
static Arena* theArena() {
    alignas(Arena) static char storage[sizeof(Arena)];
    return reinterpret_cast<Arena*>(storage);
}
Arena* Arena::get(Source) { return theArena(); }
void Arena::setArena(Source, Arena*) {}
void* Arena::allocate(size_t size, size_t) { return operator new(size); }
void Arena::deallocate(void*, size_t) {}
void* cmmcAllocate(std::size_t count, std::size_t) { return operator new(count); }
Stage::Stage(const std::string_view&) {}
Stage::~Stage() {}
String::String(const std::string_view& storage, size_t hashValue, int32_t id) : mStorage{ storage }, mStringHash{ hashValue }, mId{ id } {}
String String::get(const char* str) { return String{ str, 0, -1 }; }
String String::get(const std::string_view& str) { return String{ str, 0, -1 }; }
size_t String::hash() const { return mStringHash; }
bool String::operator==(const String& rhs) const noexcept { return mId == rhs.mId && mStorage == rhs.mStorage; }
bool String::operator==(const std::string_view& rhs) const noexcept { return mStorage == rhs; }
String String::withID(int32_t id) const noexcept { return String{ mStorage, mStringHash, id }; }
String String::withoutID() const noexcept { return String{ mStorage, mStringHash, -1 }; }
String String::withDefaultID(int32_t id) const noexcept { return mId == -1 ? withID(id) : *this; }
void reportUnreachable(const DiagLocation&) { abort(); }
void reportNotImplemented(const DiagLocation&) { abort(); }
void DiagnosticsContext::reportFatal() { abort(); }
CMMC_NAMESPACE_END
#ifndef VF_NATIVE
namespace std {
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
}
// the list node and tree primitives of libstdc++
#include <bits/stl_list.h>
#include <list>
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* pos) noexcept {
    _M_next = pos;
    _M_prev = pos->_M_prev;
    pos->_M_prev->_M_next = this;
    pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept {
    if(this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        _M_prev->_M_next = first;
        auto tmp = _M_prev;
        _M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
}
}
#endif
