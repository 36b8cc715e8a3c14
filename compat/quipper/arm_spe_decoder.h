#pragma once
// Stand-in for quipper's Arm SPE decoder: trace data is a sequence of fixed
// size little-endian records (see EncodeStandInSpe).
#include <cstdint>
#include <cstring>
#include <string>
namespace quipper {
class ArmSpeDecoder {
 public:
  struct Record {
    struct Event { bool exception_gen = false, retired = false, l1d_access = false, l1d_refill = false, tlb_access = false, tlb_walk = false, cond_not_taken = false, br_mis_pred = false; } event;
    struct Op { bool is_other = false, is_ldst_atom_sve = false, is_br_eret = false; struct { bool br_cond = false, br_indirect = false, br_eret = false; } br_eret; } op;
    struct Context { uint32_t id = 0; bool el1 = false, el2 = false; } context;
    struct Ip { uint64_t addr = 0; uint8_t el = 0; bool ns = false; } ip, tgt_br_ip;
    uint64_t timestamp = 0;
  };
  ArmSpeDecoder(const std::string& d, bool) : d_(d) {}
  bool NextRecord(Record* r) {
    if (d_.size() - p_ < 40) return false;
    uint64_t f[5]; memcpy(f, d_.data() + p_, 40); p_ += 40;
    *r = Record(); uint64_t b = f[0];
    r->event.retired = b & 1; r->op.is_br_eret = b & 2; r->op.br_eret.br_cond = b & 4; r->event.cond_not_taken = b & 8; r->context.el1 = b & 16; r->context.el2 = b & 32; r->op.br_eret.br_indirect = b & 64;
    r->context.id = (uint32_t)f[1]; r->timestamp = f[2]; r->ip.addr = f[3]; r->tgt_br_ip.addr = f[4]; return true;
  }
  static std::string Encode(const Record& r) {
    uint64_t f[5] = {(r.event.retired ? 1u : 0u) | (r.op.is_br_eret ? 2u : 0u) | (r.op.br_eret.br_cond ? 4u : 0u) | (r.event.cond_not_taken ? 8u : 0u) | (r.context.el1 ? 16u : 0u) | (r.context.el2 ? 32u : 0u) | (r.op.br_eret.br_indirect ? 64u : 0u), r.context.id, r.timestamp, r.ip.addr, r.tgt_br_ip.addr};
    return std::string(reinterpret_cast<char*>(f), 40);
  }
 private:
  std::string d_; size_t p_ = 0;
};
}
