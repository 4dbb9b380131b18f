// Stand-ins for the OpenFHE types the bindings name, and for a header of generated functions.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace lbcrypto {
struct DCRTPoly {};
template <class T> struct PublicKeyImpl {};
template <class T> struct PrivateKeyImpl {};
template <class T> struct KeyPair {
  std::shared_ptr<PublicKeyImpl<T>> publicKey;
  std::shared_ptr<PrivateKeyImpl<T>> secretKey;
};
template <class T> struct CiphertextImpl {};
struct PlaintextImpl {};
template <class T> struct CryptoContextImpl {
  KeyPair<T> KeyGen() { return {}; }
};
}  // namespace lbcrypto
using CiphertextT = std::shared_ptr<lbcrypto::CiphertextImpl<lbcrypto::DCRTPoly>>;
using PlaintextT = std::shared_ptr<lbcrypto::PlaintextImpl>;
using CryptoContextT = std::shared_ptr<lbcrypto::CryptoContextImpl<lbcrypto::DCRTPoly>>;
using PublicKeyT = std::shared_ptr<lbcrypto::PublicKeyImpl<lbcrypto::DCRTPoly>>;
using PrivateKeyT = std::shared_ptr<lbcrypto::PrivateKeyImpl<lbcrypto::DCRTPoly>>;
#define SIM_RAN(n) (sim::ran = n, sim::ranWithGil = sim::gil)
