// C13, C14, C16, C17: QoS delivery to a receiver under every short history, against a reference model.
#include "flow.hpp"
#ifndef OPS
#define OPS 4
#endif
static void history(Flow &f, int ops, unsigned mask) { // mask: bits 0 publish 1, 1 publish 2, 2 puback, 3 pubrec, 4 pubrec error, 5 pubcomp, 6 drop/reconnect
    int kinds[7], nk = 0; for (int i = 0; i < 7; i++) if (mask >> i & 1) kinds[nk++] = i;
    for (int i = 0; i < ops; i++) { int k = kinds[fsx_choice("op", nk)];
        if (k < 2) f.publish(1 + k); else if (k < 6) { if (!f.online) { fsx_assume(false); } f.ackSym(k - 2); } else { if (f.online) f.drop(fsx_choice("clean", 2)); else { fsx_assume(f.persistent); f.reconnect((int)fsx_range("receive maximum", 1, 65535)); } } }
    if (f.online || f.persistent) f.drain(); }
extern "C" void fsx_history() { Flow f; bool pers = fsx_choice("persistent", 2); f.start(pers, (int)fsx_range("first receive maximum", 1, 65535)); history(f, OPS, 0x7f); }
// long enough for a whole QoS 2 exchange around reconnects
extern "C" void fsx_qos2() { Flow f; f.start(true, 2); f.publish(2); history(f, OPS, 0x6a); }
extern "C" void fsx_qos1() { Flow f; f.start(true, 3); f.publish(1); f.publish(1); history(f, OPS, 0x45); }
extern "C" void fsx_v311() { Flow f; f.start(fsx_choice("persistent", 2), 0xffff, V311); f.publish(2); f.publish(1); history(f, OPS, 0x6f); }
extern "C" void fsx_quota() { Flow f; bool pers = fsx_choice("persistent", 2); f.start(pers, 1 + (int)fsx_choice("first receive maximum", 2)); f.publish(2); history(f, OPS, 0x3f); }
