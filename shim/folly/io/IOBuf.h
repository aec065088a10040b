// Stand-in for folly/io/IOBuf.h: a chain of byte buffers.
#pragma once
#include <memory>
#include <string>
#include <utility>
namespace folly {
struct mcFbString { std::string s; std::string toStdString() const& { return s; } std::string toStdString() && { return std::move(s); } const char* c_str() const { return s.c_str(); } size_t size() const { return s.size(); } operator std::string() const { return s; } };
class IOBuf {
    std::string data_; std::unique_ptr<IOBuf> next_;
 public:
    static std::unique_ptr<IOBuf> copyBuffer(const std::string& s) { auto b = std::make_unique<IOBuf>(); b->data_ = s; return b; }
    static std::unique_ptr<IOBuf> create(size_t) { return std::make_unique<IOBuf>(); }
    void appendChain(std::unique_ptr<IOBuf>&& o) { IOBuf* t = this; while (t->next_) t = t->next_.get(); t->next_ = std::move(o); }
    void prependChain(std::unique_ptr<IOBuf>&& o) { appendChain(std::move(o)); }   // appends at the end of the (circular) chain, as in folly
    void appendToChain(std::unique_ptr<IOBuf>&& o) { appendChain(std::move(o)); }
    bool empty() const { for (const IOBuf* t = this; t; t = t->next_.get()) if (!t->data_.empty()) return false; return true; }
    size_t length() const { return data_.size(); } const uint8_t* data() const { return reinterpret_cast<const uint8_t*>(data_.data()); } bool isChained() const { return (bool)next_; }
    size_t computeChainDataLength() const { size_t n = 0; for (const IOBuf* t = this; t; t = t->next_.get()) n += t->data_.size(); return n; }
    void coalesce() { for (IOBuf* t = next_.get(); t; t = t->next_.get()) data_ += t->data_; next_.reset(); }
    mcFbString moveToFbString() { coalesce(); mcFbString r{std::move(data_)}; data_.clear(); return r; }
    template <class C = std::string> C to() const { C r; for (const IOBuf* t = this; t; t = t->next_.get()) r.append(t->data_); return r; }
};
}  // namespace folly
