// Force-included before every sparrow translation unit: contract failures become observable events
// (message + stack on stderr, coverage flushed) instead of SIGTRAP.
#pragma once
#ifdef __cplusplus
extern "C" [[noreturn]] void vt_contract_failed(const char* expr, const char* file, int line, const char* func);
#define SPARROW_CONTRACTS_CHECKS_ENABLED 1
#define SPARROW_CONTRACTS_ON_FAILURE(expr__, message__) \
    ::vt_contract_failed(#expr__, __FILE__, __LINE__, __PRETTY_FUNCTION__)
#endif
