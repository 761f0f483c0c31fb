// C++ side of the openworkers-v8 crate (rusty_v8 fork, V8 14.6 headers), rebuilt against the V8 12.4 that
// the installed node binary contains. Derived from openworkers-v8-146.8.0/src/binding.cc
// (Copyright 2019-2021 the Deno authors, MIT license): only the functions openworkers-runtime-v8 links to are
// kept; those whose V8 API or struct layout differs between the two versions are rewritten at the end.
#include <dlfcn.h>
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "libplatform/libplatform.h"
#include "v8.h"
#include "v8-profiler.h"
#include "shim_support.h"
using namespace support;
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"

static_assert(sizeof(v8::HandleScope) == sizeof(size_t) * 3, "");
static_assert(sizeof(v8::TryCatch) == sizeof(size_t) * 6, "");
static_assert(sizeof(v8::Locker) == sizeof(size_t) * 2, "");
static_assert(sizeof(v8::SnapshotCreator) == sizeof(size_t) * 1, "");
static_assert(sizeof(v8::ReturnValue<v8::Value>) == sizeof(size_t), "");
static_assert(sizeof(v8::ScriptCompiler::CachedData) == 24, "");
static_assert(offsetof(v8::ScriptCompiler::CachedData, rejected) == 12, "");

struct RustAllocatorVtable {
  void* (*allocate)(void* handle, size_t length);
  void* (*allocate_uninitialized)(void* handle, size_t length);
  void (*free)(void* handle, void* data, size_t length);
  void (*drop)(void* handle);
};
class RustAllocator : public v8::ArrayBuffer::Allocator {
  void* handle;
  const RustAllocatorVtable* vtable;
 public:
  RustAllocator(void* h, const RustAllocatorVtable* v) : handle(h), vtable(v) {}
  virtual ~RustAllocator() { vtable->drop(handle); }
  void* Allocate(size_t length) final { return vtable->allocate(handle, length); }
  void* AllocateUninitialized(size_t length) final { return vtable->allocate_uninitialized(handle, length); }
  void Free(void* data, size_t length) final { vtable->free(handle, data, length); }
};


// ---- monitors: who touches which isolate under which lock (read by the host through owh_mon_*) ----
#include <atomic>
#include <mutex>
#include <unordered_map>
#include <unordered_set>
namespace owhmon {
enum { GLOBAL_NEW, GLOBAL_RESET, RESET_UNLOCKED, SCOPE_UNLOCKED, ADJUST_UNLOCKED, RESET_UNKNOWN, LOCKS, DISPOSED, LEAKED, SCOPES, ADJUSTS, LOCKED_ISOLATES, N };
std::atomic<uint64_t> c[N];
std::mutex mu;
std::unordered_map<const void*, v8::Isolate*> slots;
std::unordered_set<v8::Isolate*> pooled;  // isolates which are shared through a Locker
std::unordered_map<v8::Isolate*, int64_t> ext, live, term;
bool bad(v8::Isolate* i) {
  if (v8::Locker::IsLocked(i)) return false;
  std::lock_guard<std::mutex> g(mu);
  return pooled.count(i) != 0;
}
void on_lock(v8::Isolate* i) { c[LOCKS]++; std::lock_guard<std::mutex> g(mu); if (pooled.insert(i).second) c[LOCKED_ISOLATES]++; }
void on_new(const void* s, v8::Isolate* i) { c[GLOBAL_NEW]++; std::lock_guard<std::mutex> g(mu); slots[s] = i; live[i]++; }
void on_reset(const void* s) {
  c[GLOBAL_RESET]++;
  v8::Isolate* i = nullptr;
  { std::lock_guard<std::mutex> g(mu); auto f = slots.find(s); if (f == slots.end()) { c[RESET_UNKNOWN]++; return; } i = f->second; slots.erase(f); live[i]--; }
  if (bad(i)) c[RESET_UNLOCKED]++;
}
void on_dispose(v8::Isolate* i) {
  c[DISPOSED]++;
  std::lock_guard<std::mutex> g(mu);
  for (auto it = slots.begin(); it != slots.end();) if (it->second == i) { c[LEAKED]++; it = slots.erase(it); } else ++it;
  pooled.erase(i); ext.erase(i); live.erase(i); term.erase(i);
}
void on_adjust(v8::Isolate* i, int64_t d) { c[ADJUSTS]++; if (bad(i)) c[ADJUST_UNLOCKED]++; std::lock_guard<std::mutex> g(mu); ext[i] += d; }
void on_scope(v8::Isolate* i) { c[SCOPES]++; if (bad(i)) c[SCOPE_UNLOCKED]++; }
}

extern "C" {
void owh_mon_counts(uint64_t* out) { for (int i = 0; i < owhmon::N; i++) out[i] = owhmon::c[i]; }
int64_t owh_mon_ext(v8::Isolate* i) { std::lock_guard<std::mutex> g(owhmon::mu); return owhmon::ext[i]; }
int64_t owh_mon_term(v8::Isolate* i) { std::lock_guard<std::mutex> g(owhmon::mu); return owhmon::term[i]; }
int64_t owh_mon_live(v8::Isolate* i) { std::lock_guard<std::mutex> g(owhmon::mu); return owhmon::live[i]; }
void* owh_alloc(void* a, size_t n, int zero) { auto p = (v8::ArrayBuffer::Allocator*)a; return zero ? p->Allocate(n) : p->AllocateUninitialized(n); }
void owh_free(void* a, void* d, size_t n) { ((v8::ArrayBuffer::Allocator*)a)->Free(d, n); }
two_pointers_t std__shared_ptr__v8__ArrayBuffer__Allocator__CONVERT__std__unique_ptr(
    v8::ArrayBuffer::Allocator* unique_ptr) {
  return make_pod<two_pointers_t>(
      std::shared_ptr<v8::ArrayBuffer::Allocator>(unique_ptr));
}

v8::ArrayBuffer::Allocator* std__shared_ptr__v8__ArrayBuffer__Allocator__get(
    const std::shared_ptr<v8::ArrayBuffer::Allocator>& ptr) {
  return ptr.get();
}

void std__shared_ptr__v8__ArrayBuffer__Allocator__reset(
    std::shared_ptr<v8::ArrayBuffer::Allocator>* ptr) {
  ptr->reset();
}

two_pointers_t std__shared_ptr__v8__BackingStore__CONVERT__std__unique_ptr(
    v8::BackingStore* unique_ptr) {
  return make_pod<two_pointers_t>(
      std::shared_ptr<v8::BackingStore>(unique_ptr));
}

v8::BackingStore* std__shared_ptr__v8__BackingStore__get(
    const std::shared_ptr<v8::BackingStore>& ptr) {
  return ptr.get();
}

void std__shared_ptr__v8__BackingStore__reset(
    std::shared_ptr<v8::BackingStore>* ptr) {
  ptr->reset();
}

two_pointers_t std__shared_ptr__v8__Platform__CONVERT__std__unique_ptr(
    v8::Platform* unique_ptr) {
  return make_pod<two_pointers_t>(std::shared_ptr<v8::Platform>(unique_ptr));
}

two_pointers_t std__shared_ptr__v8__Platform__COPY(
    const std::shared_ptr<v8::Platform>& ptr) {
  return make_pod<two_pointers_t>(ptr);
}

v8::Platform* std__shared_ptr__v8__Platform__get(
    const std::shared_ptr<v8::Platform>& ptr) {
  return ptr.get();
}

void std__shared_ptr__v8__Platform__reset(std::shared_ptr<v8::Platform>* ptr) {
  ptr->reset();
}

const v8::ArrayBuffer* v8__ArrayBufferView__Buffer(
    const v8::ArrayBufferView& self) {
  return local_to_ptr(ptr_to_local(&self)->Buffer());
}

size_t v8__ArrayBufferView__ByteLength(const v8::ArrayBufferView& self) {
  return ptr_to_local(&self)->ByteLength();
}

size_t v8__ArrayBufferView__ByteOffset(const v8::ArrayBufferView& self) {
  return ptr_to_local(&self)->ByteOffset();
}

size_t v8__ArrayBufferView__CopyContents(const v8::ArrayBufferView& self,
                                         void* dest, int byte_length) {
  return ptr_to_local(&self)->CopyContents(dest, byte_length);
}

void v8__ArrayBuffer__Allocator__DELETE(v8::ArrayBuffer::Allocator* self) {
  delete self;
}

v8::ArrayBuffer::Allocator* v8__ArrayBuffer__Allocator__NewDefaultAllocator() {
  return v8::ArrayBuffer::Allocator::NewDefaultAllocator();
}

v8::ArrayBuffer::Allocator* v8__ArrayBuffer__Allocator__NewRustAllocator(
    void* handle, const RustAllocatorVtable* vtable) {
  return new RustAllocator(handle, vtable);
}

size_t v8__ArrayBuffer__ByteLength(const v8::ArrayBuffer& self) {
  return self.ByteLength();
}

MaybeBool v8__ArrayBuffer__Detach(const v8::ArrayBuffer& self,
                                  const v8::Value* key) {
  return maybe_to_maybe_bool(ptr_to_local(&self)->Detach(ptr_to_local(key)));
}

two_pointers_t v8__ArrayBuffer__GetBackingStore(const v8::ArrayBuffer& self) {
  return make_pod<two_pointers_t>(ptr_to_local(&self)->GetBackingStore());
}

bool v8__ArrayBuffer__IsDetachable(const v8::ArrayBuffer& self) {
  return ptr_to_local(&self)->IsDetachable();
}

v8::BackingStore* v8__ArrayBuffer__NewBackingStore__with_data(
    void* data, size_t byte_length, v8::BackingStore::DeleterCallback deleter,
    void* deleter_data) {
  std::unique_ptr<v8::BackingStore> u = v8::ArrayBuffer::NewBackingStore(
      data, byte_length, deleter, deleter_data);
  return u.release();
}

const v8::ArrayBuffer* v8__ArrayBuffer__New__with_backing_store(
    v8::Isolate* isolate,
    const std::shared_ptr<v8::BackingStore>& backing_store) {
  return local_to_ptr(v8::ArrayBuffer::New(isolate, backing_store));
}

const v8::ArrayBuffer* v8__ArrayBuffer__New__with_byte_length(
    v8::Isolate* isolate, size_t byte_length) {
  return local_to_ptr(v8::ArrayBuffer::New(isolate, byte_length));
}

uint32_t v8__Array__Length(const v8::Array& self) { return self.Length(); }

const v8::Array* v8__Array__New(v8::Isolate* isolate, int length) {
  return local_to_ptr(v8::Array::New(isolate, length));
}

size_t v8__BackingStore__ByteLength(const v8::BackingStore& self) {
  return self.ByteLength();
}

void v8__BackingStore__DELETE(v8::BackingStore* self) { delete self; }

void* v8__BackingStore__Data(const v8::BackingStore& self) {
  return self.Data();
}

bool v8__BackingStore__IsResizableByUserJavaScript(
    const v8::BackingStore& self) {
  return ptr_to_local(&self)->IsResizableByUserJavaScript();
}

bool v8__BackingStore__IsShared(const v8::BackingStore& self) {
  return self.IsShared();
}

int64_t v8__BigInt__Int64Value(const v8::BigInt& self, bool* lossless) {
  return ptr_to_local(&self)->Int64Value(lossless);
}

const v8::BigInt* v8__BigInt__NewFromUnsigned(v8::Isolate* isolate,
                                              uint64_t value) {
  return local_to_ptr(v8::BigInt::NewFromUnsigned(isolate, value));
}

void v8__BigInt__ToWordsArray(const v8::BigInt& self, int* sign_bit,
                              int* word_count, uint64_t words[]) {
  ptr_to_local(&self)->ToWordsArray(sign_bit, word_count, words);
}

uint64_t v8__BigInt__Uint64Value(const v8::BigInt& self, bool* lossless) {
  return ptr_to_local(&self)->Uint64Value(lossless);
}

int v8__BigInt__WordCount(const v8::BigInt& self) {
  return ptr_to_local(&self)->WordCount();
}

const v8::Boolean* v8__Boolean__New(v8::Isolate* isolate, bool value) {
  return local_to_ptr(v8::Boolean::New(isolate, value));
}

void v8__Context__Enter(const v8::Context& self) {
  ptr_to_local(&self)->Enter();
}

void v8__Context__Exit(const v8::Context& self) { ptr_to_local(&self)->Exit(); }

void* v8__Context__GetAlignedPointerFromEmbedderData(const v8::Context& self,
                                                     int index) {
  return ptr_to_local(&self)->GetAlignedPointerFromEmbedderData(index);
}

uint32_t v8__Context__GetNumberOfEmbedderDataFields(const v8::Context& self) {
  return ptr_to_local(&self)->GetNumberOfEmbedderDataFields();
}

const v8::Object* v8__Context__Global(const v8::Context& self) {
  return local_to_ptr(ptr_to_local(&self)->Global());
}

void v8__Context__SetAlignedPointerInEmbedderData(v8::Context& self, int index,
                                                  void* value) {
  ptr_to_local(&self)->SetAlignedPointerInEmbedderData(index, value);
}

const v8::Value* v8__Exception__Error(const v8::String& message) {
  return local_to_ptr(v8::Exception::Error(ptr_to_local(&message)));
}

const v8::Value* v8__Exception__RangeError(const v8::String& message) {
  return local_to_ptr(v8::Exception::RangeError(ptr_to_local(&message)));
}

const v8::Value* v8__Exception__TypeError(const v8::String& message) {
  return local_to_ptr(v8::Exception::TypeError(ptr_to_local(&message)));
}

const v8::External* v8__External__New(v8::Isolate* isolate, void* value) {
  return local_to_ptr(v8::External::New(isolate, value));
}

void* v8__External__Value(const v8::External& self) { return self.Value(); }

const v8::Value* v8__FunctionCallbackInfo__Data(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  return local_to_ptr(self.Data());
}

const v8::Value* v8__FunctionCallbackInfo__Get(
    const v8::FunctionCallbackInfo<v8::Value>& self, int index) {
  return local_to_ptr(self[index]);
}

v8::Isolate* v8__FunctionCallbackInfo__GetIsolate(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  return self.GetIsolate();
}

uintptr_t* v8__FunctionCallbackInfo__GetReturnValue(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  v8::ReturnValue<v8::Value> rv = self.GetReturnValue();
  return *reinterpret_cast<uintptr_t**>(&rv);
}

int v8__FunctionCallbackInfo__Length(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  return self.Length();
}

const v8::Function* v8__FunctionTemplate__GetFunction(
    const v8::FunctionTemplate& self, const v8::Context& context) {
  return maybe_local_to_ptr(
      ptr_to_local(&self)->GetFunction(ptr_to_local(&context)));
}

const v8::Value* v8__Function__Call(const v8::Function& self,
                                    const v8::Context& context,
                                    const v8::Value& recv, int argc,
                                    const v8::Value* const argv[]) {
  return maybe_local_to_ptr(
      ptr_to_local(&self)->Call(ptr_to_local(&context), ptr_to_local(&recv),
                                argc, const_ptr_array_to_local_array(argv)));
}

const v8::Function* v8__Function__New(
    const v8::Context& context, v8::FunctionCallback callback,
    const v8::Value* data_or_null, int length,
    v8::ConstructorBehavior constructor_behavior,
    v8::SideEffectType side_effect_type) {
  return maybe_local_to_ptr(v8::Function::New(
      ptr_to_local(&context), callback, ptr_to_local(data_or_null), length,
      constructor_behavior, side_effect_type));
}

const v8::Object* v8__Function__NewInstance(const v8::Function& self,
                                            const v8::Context& context,
                                            int argc,
                                            const v8::Value* const argv[]) {
  return maybe_local_to_ptr(ptr_to_local(&self)->NewInstance(
      ptr_to_local(&context), argc, const_ptr_array_to_local_array(argv)));
}

const v8::Data* v8__Global__New(v8::Isolate* isolate, const v8::Data& other) {
  // We have to use `std::move()` here because v8 disables the copy constructor
  // for class `v8::Global`.
  auto global = v8::Global<v8::Data>(isolate, ptr_to_local(&other));
  v8::Data* slot = make_pod<v8::Data*>(std::move(global));
  owhmon::on_new(slot, isolate);
  return slot;
}

const v8::Data* v8__Global__NewWeak(
    v8::Isolate* isolate, const v8::Data& other, void* parameter,
    v8::WeakCallbackInfo<void>::Callback callback) {
  auto global = v8::Global<v8::Data>(isolate, ptr_to_local(&other));
  global.SetWeak(parameter, callback, v8::WeakCallbackType::kParameter);
  v8::Data* slot = make_pod<v8::Data*>(std::move(global));
  owhmon::on_new(slot, isolate);
  return slot;
}

void v8__Global__Reset(const v8::Data* data) {
  owhmon::on_reset(data);
  auto global = ptr_to_global(data);
  global.Reset();
}

void v8__HandleScope__CONSTRUCT(uninit_t<v8::HandleScope>* buf,
                                v8::Isolate* isolate) {
  owhmon::on_scope(isolate);
  construct_in_place<v8::HandleScope>(buf, isolate);
}

void v8__HandleScope__DESTRUCT(v8::HandleScope* self) { self->~HandleScope(); }

void v8__Isolate__LowMemoryNotification(v8::Isolate* isolate) { isolate->LowMemoryNotification(); }
void v8__Isolate__RemoveNearHeapLimitCallback(v8::Isolate* isolate, v8::NearHeapLimitCallback callback, size_t limit) {
  isolate->RemoveNearHeapLimitCallback(callback, limit);
}
void v8__Isolate__AddNearHeapLimitCallback(v8::Isolate* isolate,
                                           v8::NearHeapLimitCallback callback,
                                           void* data) {
  isolate->AddNearHeapLimitCallback(callback, data);
}

int64_t v8__Isolate__AdjustAmountOfExternalAllocatedMemory(
    v8::Isolate* isolate, int64_t change_in_bytes) {
  owhmon::on_adjust(isolate, change_in_bytes);
  return isolate->AdjustAmountOfExternalAllocatedMemory(change_in_bytes);
}

void v8__Isolate__CancelTerminateExecution(v8::Isolate* isolate) {
  isolate->CancelTerminateExecution();
}

void v8__Isolate__Dispose(v8::Isolate* isolate) { owhmon::on_dispose(isolate); isolate->Dispose(); }

void v8__Isolate__Enter(v8::Isolate* isolate) { isolate->Enter(); }

void v8__Isolate__Exit(v8::Isolate* isolate) { isolate->Exit(); }

v8::Isolate* v8__Isolate__GetCurrent() { return v8::Isolate::GetCurrent(); }

const v8::Context* v8__Isolate__GetCurrentContext(v8::Isolate* isolate) {
  return local_to_ptr(isolate->GetCurrentContext());
}

void* v8__Isolate__GetData(v8::Isolate* isolate, uint32_t slot) {
  return isolate->GetData(slot);
}

uint32_t v8__Isolate__GetNumberOfDataSlots(v8::Isolate* isolate) {
  return isolate->GetNumberOfDataSlots();
}

bool v8__Isolate__IsExecutionTerminating(v8::Isolate* isolate) {
  return isolate->IsExecutionTerminating();
}

void v8__Isolate__PerformMicrotaskCheckpoint(v8::Isolate* isolate) {
  isolate->PerformMicrotaskCheckpoint();
}

void v8__Isolate__SetData(v8::Isolate* isolate, uint32_t slot, void* data) {
  isolate->SetData(slot, data);
}

void v8__Isolate__SetOOMErrorHandler(v8::Isolate* isolate,
                                     v8::OOMErrorCallback callback) {
  isolate->SetOOMErrorHandler(callback);
}

void v8__Isolate__TerminateExecution(v8::Isolate* isolate) {
  { std::lock_guard<std::mutex> g(owhmon::mu); owhmon::term[isolate]++; }
  isolate->TerminateExecution();
}

const v8::Value* v8__Isolate__ThrowException(v8::Isolate* isolate,
                                             const v8::Value& exception) {
  return local_to_ptr(isolate->ThrowException(ptr_to_local(&exception)));
}

const v8::Value* v8__JSON__Parse(const v8::Context& context,
                                 const v8::String& json_string) {
  return maybe_local_to_ptr(
      v8::JSON::Parse(ptr_to_local(&context), ptr_to_local(&json_string)));
}

const v8::String* v8__JSON__Stringify(const v8::Context& context,
                                      const v8::Value& json_object) {
  return maybe_local_to_ptr(
      v8::JSON::Stringify(ptr_to_local(&context), ptr_to_local(&json_object)));
}

const v8::Data* v8__Local__New(v8::Isolate* isolate, const v8::Data& other) {
  return local_to_ptr(v8::Local<v8::Data>::New(isolate, ptr_to_local(&other)));
}

void v8__Locker__CONSTRUCT(uninit_t<v8::Locker>* buf, v8::Isolate* isolate) {
  construct_in_place<v8::Locker>(buf, isolate);
  owhmon::on_lock(isolate);
}

void v8__Locker__DESTRUCT(v8::Locker* self) { self->~Locker(); }

bool v8__Locker__IsLocked(v8::Isolate* isolate) {
  return v8::Locker::IsLocked(isolate);
}

const v8::Array* v8__Map__As__Array(const v8::Map& self) {
  return local_to_ptr(self.AsArray());
}

int v8__Message__GetLineNumber(const v8::Message& self,
                               const v8::Context& context) {
  v8::Maybe<int> maybe = self.GetLineNumber(ptr_to_local(&context));
  if (maybe.IsJust()) {
    return maybe.ToChecked();
  } else {
    return -1;
  }
}

const v8::String* v8__Message__GetSourceLine(const v8::Message& self,
                                             const v8::Context& context) {
  return maybe_local_to_ptr(self.GetSourceLine(ptr_to_local(&context)));
}

int v8__Message__GetStartColumn(const v8::Message& self) {
  return self.GetStartColumn();
}

const v8::Primitive* v8__Null(v8::Isolate* isolate) {
  return local_to_ptr(v8::Null(isolate));
}

const v8::Number* v8__Number__New(v8::Isolate* isolate, double value) {
  return *v8::Number::New(isolate, value);
}

double v8__Number__Value(const v8::Number& self) { return self.Value(); }

const v8::Value* v8__Object__Get(const v8::Object& self,
                                 const v8::Context& context,
                                 const v8::Value& key) {
  return maybe_local_to_ptr(
      ptr_to_local(&self)->Get(ptr_to_local(&context), ptr_to_local(&key)));
}

const v8::Value* v8__Object__GetIndex(const v8::Object& self,
                                      const v8::Context& context,
                                      uint32_t index) {
  return maybe_local_to_ptr(
      ptr_to_local(&self)->Get(ptr_to_local(&context), index));
}

const v8::Array* v8__Object__GetOwnPropertyNames(
    const v8::Object* self, const v8::Context* context,
    v8::PropertyFilter filter, v8::KeyConversionMode key_conversion) {
  return maybe_local_to_ptr(ptr_to_local(self)->GetOwnPropertyNames(
      ptr_to_local(context), filter, key_conversion));
}

const v8::Object* v8__Object__New(v8::Isolate* isolate) {
  return local_to_ptr(v8::Object::New(isolate));
}

MaybeBool v8__Object__Set(const v8::Object& self, const v8::Context& context,
                          const v8::Value& key, const v8::Value& value) {
  return maybe_to_maybe_bool(ptr_to_local(&self)->Set(
      ptr_to_local(&context), ptr_to_local(&key), ptr_to_local(&value)));
}

MaybeBool v8__Object__SetIndex(const v8::Object& self,
                               const v8::Context& context, uint32_t index,
                               const v8::Value& value) {
  return maybe_to_maybe_bool(ptr_to_local(&self)->Set(
      ptr_to_local(&context), index, ptr_to_local(&value)));
}

void v8__Platform__DELETE(v8::Platform* self) { delete self; }

v8::Platform* v8__Platform__NewDefaultPlatform(int thread_pool_size,
                                               bool idle_task_support) {
  return v8::platform::NewDefaultPlatform(
             thread_pool_size,
             idle_task_support ? v8::platform::IdleTaskSupport::kEnabled
                               : v8::platform::IdleTaskSupport::kDisabled,
             v8::platform::InProcessStackDumping::kDisabled, nullptr)
      .release();
}

void v8__Platform__NotifyIsolateShutdown(v8::Platform* platform,
                                         v8::Isolate* isolate) {
  v8::platform::NotifyIsolateShutdown(platform, isolate);
}

bool v8__Platform__PumpMessageLoop(v8::Platform* platform, v8::Isolate* isolate,
                                   bool wait_for_work) {
  return v8::platform::PumpMessageLoop(
      platform, isolate,
      wait_for_work ? v8::platform::MessageLoopBehavior::kWaitForWork
                    : v8::platform::MessageLoopBehavior::kDoNotWait);
}

void v8__ReturnValue__Value__Set(v8::ReturnValue<v8::Value>* self,
                                 const v8::Value& value) {
  self->Set(ptr_to_local(&value));
}

void v8__ScriptCompiler__CachedData__DELETE(
    v8::ScriptCompiler::CachedData* self) {
  delete self;
}

v8::ScriptCompiler::CachedData* v8__ScriptCompiler__CachedData__NEW(
    const uint8_t* data, int length) {
  return new v8::ScriptCompiler::CachedData(
      data, length, v8::ScriptCompiler::CachedData::BufferNotOwned);
}

const v8::Script* v8__ScriptCompiler__Compile(
    const v8::Context* context, v8::ScriptCompiler::Source* source,
    v8::ScriptCompiler::CompileOptions options,
    v8::ScriptCompiler::NoCacheReason no_cache_reason) {
  v8::MaybeLocal<v8::Script> maybe_local = v8::ScriptCompiler::Compile(
      ptr_to_local(context), source, options, no_cache_reason);
  return maybe_local_to_ptr(maybe_local);
}

const v8::UnboundScript* v8__ScriptCompiler__CompileUnboundScript(
    v8::Isolate* isolate, v8::ScriptCompiler::Source* source,
    v8::ScriptCompiler::CompileOptions options,
    v8::ScriptCompiler::NoCacheReason no_cache_reason) {
  v8::MaybeLocal<v8::UnboundScript> maybe_local =
      v8::ScriptCompiler::CompileUnboundScript(isolate, source, options,
                                               no_cache_reason);
  return maybe_local_to_ptr(maybe_local);
}

void v8__ScriptCompiler__Source__CONSTRUCT(
    uninit_t<v8::ScriptCompiler::Source>* buf, const v8::String& source_string,
    const v8::ScriptOrigin* origin,
    v8::ScriptCompiler::CachedData* cached_data) {
  if (origin) {
    construct_in_place<v8::ScriptCompiler::Source>(
        buf, ptr_to_local(&source_string), *origin, cached_data);
  } else {
    construct_in_place<v8::ScriptCompiler::Source>(
        buf, ptr_to_local(&source_string), cached_data);
  }
}

void v8__ScriptCompiler__Source__DESTRUCT(v8::ScriptCompiler::Source* self) {
  self->~Source();
}

const v8::ScriptCompiler::CachedData* v8__ScriptCompiler__Source__GetCachedData(
    const v8::ScriptCompiler::Source* source) {
  return source->GetCachedData();
}

const v8::Value* v8__Script__Run(const v8::Script& script,
                                 const v8::Context& context) {
  return maybe_local_to_ptr(ptr_to_local(&script)->Run(ptr_to_local(&context)));
}

v8::StartupData v8__SnapshotCreator__CreateBlob(
    v8::SnapshotCreator* self,
    v8::SnapshotCreator::FunctionCodeHandling function_code_handling) {
  return self->CreateBlob(function_code_handling);
}

void v8__SnapshotCreator__DESTRUCT(v8::SnapshotCreator* self) {
  self->~SnapshotCreator();
}

v8::Isolate* v8__SnapshotCreator__GetIsolate(const v8::SnapshotCreator& self) {
  // `v8::SnapshotCreator::GetIsolate()` is not declared as a const method, but
  // this appears to be a mistake.
  auto self_ptr = const_cast<v8::SnapshotCreator*>(&self);
  return self_ptr->GetIsolate();
}

void v8__StartupData__data__DELETE(const char* data) { delete[] data; }

bool v8__String__ContainsOnlyOneByte(const v8::String& self) {
  return self.ContainsOnlyOneByte();
}

const v8::String* v8__String__Empty(v8::Isolate* isolate) {
  return local_to_ptr(v8::String::Empty(isolate));
}

bool v8__String__IsOneByte(const v8::String& self) { return self.IsOneByte(); }

int v8__String__Length(const v8::String& self) { return self.Length(); }

const v8::String* v8__String__NewFromUtf8(v8::Isolate* isolate,
                                          const char* data,
                                          v8::NewStringType new_type,
                                          int length) {
  return maybe_local_to_ptr(
      v8::String::NewFromUtf8(isolate, data, new_type, length));
}

void v8__TryCatch__CONSTRUCT(uninit_t<v8::TryCatch>* buf,
                             v8::Isolate* isolate) {
  construct_in_place<v8::TryCatch>(buf, isolate);
}

void v8__TryCatch__DESTRUCT(v8::TryCatch* self) { self->~TryCatch(); }

const v8::Value* v8__TryCatch__Exception(const v8::TryCatch& self) {
  return local_to_ptr(self.Exception());
}

const v8::Message* v8__TryCatch__Message(const v8::TryCatch& self) {
  return local_to_ptr(self.Message());
}

const v8::Value* v8__TryCatch__StackTrace(const v8::TryCatch& self,
                                          const v8::Context& context) {
  return maybe_local_to_ptr(self.StackTrace(ptr_to_local(&context)));
}

v8::ScriptCompiler::CachedData* v8__UnboundScript__CreateCodeCache(
    const v8::UnboundScript& unbound_script) {
  return v8::ScriptCompiler::CreateCodeCache(ptr_to_local(&unbound_script));
}

const v8::Primitive* v8__Undefined(v8::Isolate* isolate) {
  return local_to_ptr(v8::Undefined(isolate));
}

void v8__V8__Initialize() { v8::V8::Initialize(); }

void v8__V8__InitializePlatform(v8::Platform* platform) {
  v8::V8::InitializePlatform(platform);
}

void v8__V8__SetFlagsFromString(const char* flags, size_t length) {
  v8::V8::SetFlagsFromString(flags, length);
}

uint32_t v8__ValueDeserializer__GetWireFormatVersion(
    v8::ValueDeserializer* self) {
  return self->GetWireFormatVersion();
}

bool v8__ValueDeserializer__ReadDouble(v8::ValueDeserializer* self,
                                       double* value) {
  return self->ReadDouble(value);
}

MaybeBool v8__ValueDeserializer__ReadHeader(v8::ValueDeserializer* self,
                                            v8::Local<v8::Context> context) {
  return maybe_to_maybe_bool(self->ReadHeader(context));
}

bool v8__ValueDeserializer__ReadRawBytes(v8::ValueDeserializer* self,
                                         size_t length, const void** data) {
  return self->ReadRawBytes(length, data);
}

bool v8__ValueDeserializer__ReadUint32(v8::ValueDeserializer* self,
                                       uint32_t* value) {
  return self->ReadUint32(value);
}

bool v8__ValueDeserializer__ReadUint64(v8::ValueDeserializer* self,
                                       uint64_t* value) {
  return self->ReadUint64(value);
}

v8::Value* v8__ValueDeserializer__ReadValue(v8::ValueDeserializer* self,
                                            v8::Local<v8::Context> context) {
  return maybe_local_to_ptr(self->ReadValue(context));
}

void v8__ValueDeserializer__TransferArrayBuffer(
    v8::ValueDeserializer* self, uint32_t transfer_id,
    v8::Local<v8::ArrayBuffer> array_buffer) {
  self->TransferArrayBuffer(transfer_id, array_buffer);
}

void v8__ValueDeserializer__TransferSharedArrayBuffer(
    v8::ValueDeserializer* self, uint32_t transfer_id,
    v8::Local<v8::SharedArrayBuffer> shared_array_buffer) {
  self->TransferSharedArrayBuffer(transfer_id, shared_array_buffer);
}

void v8__ValueSerializer__SetTreatArrayBufferViewsAsHostObjects(
    v8::ValueSerializer* self, bool mode) {
  self->SetTreatArrayBufferViewsAsHostObjects(mode);
}

void v8__ValueSerializer__TransferArrayBuffer(
    v8::ValueSerializer* self, uint32_t transfer_id,
    v8::Local<v8::ArrayBuffer> array_buffer) {
  self->TransferArrayBuffer(transfer_id, array_buffer);
}

void v8__ValueSerializer__WriteDouble(v8::ValueSerializer* self, double value) {
  self->WriteDouble(value);
}

void v8__ValueSerializer__WriteHeader(v8::ValueSerializer* self) {
  self->WriteHeader();
}

void v8__ValueSerializer__WriteRawBytes(v8::ValueSerializer* self,
                                        const void* source, size_t length) {
  self->WriteRawBytes(source, length);
}

void v8__ValueSerializer__WriteUint32(v8::ValueSerializer* self,
                                      uint32_t value) {
  self->WriteUint32(value);
}

void v8__ValueSerializer__WriteUint64(v8::ValueSerializer* self,
                                      uint64_t value) {
  self->WriteUint64(value);
}

MaybeBool v8__ValueSerializer__WriteValue(v8::ValueSerializer* self,
                                          v8::Local<v8::Context> context,
                                          v8::Local<v8::Value> value) {
  return maybe_to_maybe_bool(self->WriteValue(context, value));
}

bool v8__Value__BooleanValue(const v8::Value& self, v8::Isolate* isolate) {
  return self.BooleanValue(isolate);
}

bool v8__Value__IsArray(const v8::Value& self) { return self.IsArray(); }

bool v8__Value__IsArrayBuffer(const v8::Value& self) {
  return self.IsArrayBuffer();
}

bool v8__Value__IsArrayBufferView(const v8::Value& self) {
  return self.IsArrayBufferView();
}

bool v8__Value__IsAsyncFunction(const v8::Value& self) {
  return self.IsAsyncFunction();
}

bool v8__Value__IsBigInt(const v8::Value& self) { return self.IsBigInt(); }

bool v8__Value__IsBigInt64Array(const v8::Value& self) {
  return self.IsBigInt64Array();
}

bool v8__Value__IsBigUint64Array(const v8::Value& self) {
  return self.IsBigUint64Array();
}

bool v8__Value__IsBoolean(const v8::Value& self) { return self.IsBoolean(); }

bool v8__Value__IsDataView(const v8::Value& self) { return self.IsDataView(); }

bool v8__Value__IsDate(const v8::Value& self) { return self.IsDate(); }

bool v8__Value__IsExternal(const v8::Value& self) { return self.IsExternal(); }

bool v8__Value__IsFloat32Array(const v8::Value& self) {
  return self.IsFloat32Array();
}

bool v8__Value__IsFloat64Array(const v8::Value& self) {
  return self.IsFloat64Array();
}

bool v8__Value__IsFunction(const v8::Value& self) { return self.IsFunction(); }

bool v8__Value__IsGeneratorFunction(const v8::Value& self) {
  return self.IsGeneratorFunction();
}

bool v8__Value__IsInt16Array(const v8::Value& self) {
  return self.IsInt16Array();
}

bool v8__Value__IsInt32(const v8::Value& self) { return self.IsInt32(); }

bool v8__Value__IsInt32Array(const v8::Value& self) {
  return self.IsInt32Array();
}

bool v8__Value__IsInt8Array(const v8::Value& self) {
  return self.IsInt8Array();
}

bool v8__Value__IsMap(const v8::Value& self) { return self.IsMap(); }

bool v8__Value__IsMapIterator(const v8::Value& self) {
  return self.IsMapIterator();
}

bool v8__Value__IsModuleNamespaceObject(const v8::Value& self) {
  return self.IsModuleNamespaceObject();
}

bool v8__Value__IsNull(const v8::Value& self) { return self.IsNull(); }

bool v8__Value__IsNullOrUndefined(const v8::Value& self) {
  return self.IsNullOrUndefined();
}

bool v8__Value__IsNumber(const v8::Value& self) { return self.IsNumber(); }

bool v8__Value__IsObject(const v8::Value& self) { return self.IsObject(); }

bool v8__Value__IsPromise(const v8::Value& self) { return self.IsPromise(); }

bool v8__Value__IsProxy(const v8::Value& self) { return self.IsProxy(); }

bool v8__Value__IsRegExp(const v8::Value& self) { return self.IsRegExp(); }

bool v8__Value__IsSet(const v8::Value& self) { return self.IsSet(); }

bool v8__Value__IsSetIterator(const v8::Value& self) {
  return self.IsSetIterator();
}

bool v8__Value__IsSharedArrayBuffer(const v8::Value& self) {
  return self.IsSharedArrayBuffer();
}

bool v8__Value__IsString(const v8::Value& self) { return self.IsString(); }

bool v8__Value__IsStringObject(const v8::Value& self) {
  return self.IsStringObject();
}

bool v8__Value__IsSymbol(const v8::Value& self) { return self.IsSymbol(); }

bool v8__Value__IsTrue(const v8::Value& self) { return self.IsTrue(); }

bool v8__Value__IsTypedArray(const v8::Value& self) {
  return self.IsTypedArray();
}

bool v8__Value__IsUint16Array(const v8::Value& self) {
  return self.IsUint16Array();
}

bool v8__Value__IsUint32(const v8::Value& self) { return self.IsUint32(); }

bool v8__Value__IsUint32Array(const v8::Value& self) {
  return self.IsUint32Array();
}

bool v8__Value__IsUint8Array(const v8::Value& self) {
  return self.IsUint8Array();
}

bool v8__Value__IsUint8ClampedArray(const v8::Value& self) {
  return self.IsUint8ClampedArray();
}

bool v8__Value__IsUndefined(const v8::Value& self) {
  return self.IsUndefined();
}

bool v8__Value__IsWasmMemoryObject(const v8::Value& self) {
  return self.IsWasmMemoryObject();
}

bool v8__Value__IsWasmModuleObject(const v8::Value& self) {
  return self.IsWasmModuleObject();
}

bool v8__Value__IsWeakMap(const v8::Value& self) { return self.IsWeakMap(); }

bool v8__Value__IsWeakSet(const v8::Value& self) { return self.IsWeakSet(); }

void v8__Value__NumberValue(const v8::Value& self, const v8::Context& context,
                            v8::Maybe<double>* out) {
  *out = self.NumberValue(ptr_to_local(&context));
}

const v8::Object* v8__Value__ToObject(const v8::Value& self,
                                      const v8::Context& context) {
  return maybe_local_to_ptr(self.ToObject(ptr_to_local(&context)));
}

const v8::String* v8__Value__ToString(const v8::Value& self,
                                      const v8::Context& context) {
  return maybe_local_to_ptr(self.ToString(ptr_to_local(&context)));
}

void v8__Value__Uint32Value(const v8::Value& self, const v8::Context& context,
                            v8::Maybe<uint32_t>* out) {
  *out = self.Uint32Value(ptr_to_local(&context));
}

v8::Isolate* v8__WeakCallbackInfo__GetIsolate(
    const v8::WeakCallbackInfo<void>* self) {
  return self->GetIsolate();
}

void* v8__WeakCallbackInfo__GetParameter(
    const v8::WeakCallbackInfo<void>* self) {
  return self->GetParameter();
}

void v8__WeakCallbackInfo__SetSecondPassCallback(
    const v8::WeakCallbackInfo<void>* self,
    v8::WeakCallbackInfo<void>::Callback callback) {
  self->SetSecondPassCallback(callback);
}

// ---------------------------------------------------------------- rewritten for V8 12.4
const v8::Uint8Array* v8__Uint8Array__New(const v8::ArrayBuffer& buf, size_t off, size_t len) {
  return local_to_ptr(v8::Uint8Array::New(ptr_to_local(&buf), off, len));
}
const v8::FunctionTemplate* v8__FunctionTemplate__New(
    v8::Isolate* isolate, v8::FunctionCallback callback, const v8::Value* data_or_null,
    const v8::Signature* signature_or_null, int length, v8::ConstructorBehavior cb,
    v8::SideEffectType se, const void*, size_t) {
  return local_to_ptr(v8::FunctionTemplate::New(isolate, callback, ptr_to_local(data_or_null),
      ptr_to_local(signature_or_null), length, cb, se));
}
const v8::Context* v8__Context__New(v8::Isolate* isolate, const v8::ObjectTemplate* templ,
                                    const v8::Value* global_object, v8::MicrotaskQueue* mq) {
  return local_to_ptr(v8::Context::New(isolate, nullptr, ptr_to_maybe_local(templ),
      ptr_to_maybe_local(global_object), v8::DeserializeInternalFieldsCallback(), mq));
}
const v8::Script* v8__Script__Compile(const v8::Context& context, const v8::String& source, const v8::ScriptOrigin* origin) {
  return maybe_local_to_ptr(v8::Script::Compile(ptr_to_local(&context), ptr_to_local(&source),
      const_cast<v8::ScriptOrigin*>(origin)));
}

// CreateParams as the crate lays it out (isolate_create_params.rs, mod raw).
struct RsConstraints {
  size_t code_range, max_old, max_young, init_old, init_young;
  uint64_t physical_memory;
  uint32_t* stack_limit;
};
struct RsCreateParams {
  void* code_event_handler;
  RsConstraints constraints;
  const v8::StartupData* snapshot_blob;
  v8::CounterLookupCallback counter_lookup_callback;
  void* create_histogram_callback;
  void* add_histogram_sample_callback;
  v8::ArrayBuffer::Allocator* array_buffer_allocator;
  std::shared_ptr<v8::ArrayBuffer::Allocator> array_buffer_allocator_shared;
  const intptr_t* external_references;
  bool allow_atomics_wait;
  void* fatal_error_handler;
  void* oom_error_handler;
  void* cpp_heap;
};
void v8__ResourceConstraints__ConfigureDefaultsFromHeapSize(RsConstraints* c, size_t initial, size_t max) {
  v8::ResourceConstraints r;
  r.ConfigureDefaultsFromHeapSize(initial, max);
  c->code_range = r.code_range_size_in_bytes();
  c->max_old = r.max_old_generation_size_in_bytes();
  c->max_young = r.max_young_generation_size_in_bytes();
  c->init_old = r.initial_old_generation_size_in_bytes();
  c->init_young = r.initial_young_generation_size_in_bytes();
}
void v8__Isolate__CreateParams__CONSTRUCT(void* buf) {
  auto* p = new (buf) RsCreateParams{};
  p->allow_atomics_wait = true;
}
size_t v8__Isolate__CreateParams__SIZEOF() { return sizeof(RsCreateParams); }
static void convert(const RsCreateParams& in, v8::Isolate::CreateParams* out) {
  out->constraints.set_code_range_size_in_bytes(in.constraints.code_range);
  out->constraints.set_max_old_generation_size_in_bytes(in.constraints.max_old);
  out->constraints.set_max_young_generation_size_in_bytes(in.constraints.max_young);
  out->constraints.set_initial_old_generation_size_in_bytes(in.constraints.init_old);
  out->constraints.set_initial_young_generation_size_in_bytes(in.constraints.init_young);
  out->constraints.set_stack_limit(in.constraints.stack_limit);
  out->snapshot_blob = in.snapshot_blob;
  out->counter_lookup_callback = in.counter_lookup_callback;
  out->array_buffer_allocator = in.array_buffer_allocator;
  out->array_buffer_allocator_shared = in.array_buffer_allocator_shared;
  out->external_references = in.external_references;
  out->allow_atomics_wait = in.allow_atomics_wait;
}
v8::Isolate* v8__Isolate__New(const RsCreateParams& in) {
  v8::Isolate::CreateParams p;
  convert(in, &p);
  return v8::Isolate::New(p);
}
void v8__SnapshotCreator__CONSTRUCT(void* buf, const RsCreateParams& in) {
  v8::Isolate::CreateParams p;
  convert(in, &p);
  // V8 12.4 has no default allocator for snapshot creation from CreateParams.
  if (!p.array_buffer_allocator && !p.array_buffer_allocator_shared)
    p.array_buffer_allocator = v8::ArrayBuffer::Allocator::NewDefaultAllocator();
  new (buf) v8::SnapshotCreator(p);
}
void v8__SnapshotCreator__SetDefaultContext(v8::SnapshotCreator* self, const v8::Context& context) {
  self->SetDefaultContext(ptr_to_local(&context));
}
// v8::String V2 write API (flags: 1 = null terminate, 2 = replace invalid UTF-8).
int v8__String__Utf8Length(const v8::String& self, v8::Isolate* isolate) {
  return const_cast<v8::String&>(self).Utf8Length(isolate);
}
static int opts(int flags) {
  int o = v8::String::HINT_MANY_WRITES_EXPECTED;
  if (!(flags & 1)) o |= v8::String::NO_NULL_TERMINATION;
  if (flags & 2) o |= v8::String::REPLACE_INVALID_UTF8;
  return o;
}
void v8__String__WriteOneByte_v2(const v8::String& self, v8::Isolate* isolate, uint32_t offset, uint32_t length, uint8_t* buffer, int flags) {
  self.WriteOneByte(isolate, buffer, offset, length, opts(flags));
}
size_t v8__String__WriteUtf8_v2(const v8::String& self, v8::Isolate* isolate, char* buffer, size_t capacity, int flags, size_t* processed) {
  int nchars = 0;
  int n = self.WriteUtf8(isolate, buffer, (int)capacity, &nchars, opts(flags));
  if (processed) *processed = nchars;
  return n;
}
void v8__String__Write_v2(const v8::String& self, v8::Isolate* isolate, uint32_t offset, uint32_t length, uint16_t* buffer, int flags) {
  self.Write(isolate, buffer, offset, length, opts(flags));
}
#include "shim_more.inc"
void udata_setCommonData_77(const void*, int* err) { if (err) *err = 0; }
void v8_inspector__StringBuffer__DELETE(void*) { abort(); }

}  // extern "C"

// ---------------------------------------------------------------- process entry
// The library is preloaded into the node executable. Node's own main() is replaced before it
// runs, so V8 is still pristine: the crate under test initialises platform, flags and isolates itself.
extern "C" int owh_main(int argc, char** argv);
typedef int (*main_t)(int, char**, char**);
static int shim_main(int argc, char** argv, char**) {
  unsetenv("LD_PRELOAD");
  int rc = owh_main(argc, argv);
  fflush(nullptr);
  _exit(rc);
}
extern "C" __attribute__((visibility("default"))) int __libc_start_main(main_t main, int argc, char** argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void* stack_end) {
  typedef int (*start_t)(main_t, int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
  auto real = (start_t)dlsym(RTLD_NEXT, "__libc_start_main");
  return real(shim_main, argc, argv, init, fini, rtld_fini, stack_end);
}
