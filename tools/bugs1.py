import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
H = [("demo30.h", open("/verif/tools/demo30.h").read())]
F = "src/model2030/cpu2030.c"
INC = '#include "demo30.h"\n'
only = sys.argv[1:]
def go(bid, *a, **k):
    if not only or bid in only: plant(bid, *a, extra=H, **k)

go("b01-even-parity", "C01", [(F, "cpu_2030.Alu_out |= odd_parity[cpu_2030.Alu_out] ^ even_parity;",
    "cpu_2030.Alu_out |= even_parity ? 0 : odd_parity[cpu_2030.Alu_out];")],
  INC + '''int main(void) {
    unsigned v; init(65536);
    for (v = 0; v < 256; v++) {
        word(1, 0); w->CA = 9; w->CF = 3; w->CD = 8; w->CK = 0x18;       /* L to D, even parity set */
        C.L_REG = P(v); cycle_2030();
        word(1, 0); w->CA = 9; w->CF = 3; w->CD = 8; C.L_REG = P(v); cycle_2030();
        if (C.D_REG != (P(v) ^ 0x100)) { printf("even parity of %02x: %03x\\n", v, C.D_REG); return 1; }
    }
    return 0;
}
''', "even parity ordered by the control word and a result with an odd number of one bits", "an ordered even-parity result is given odd parity for half of all bytes")

go("b02-r-after-invalid-address", "C02", [(F, "if ((cpu_2030.allow_write && protect_loc_cpu_or_mpx) || mem_prot) {",
    "if (cpu_2030.allow_write && protect_loc_cpu_or_mpx) {")],
  INC + '''int main(void) {
    init(8192);
    word(4, 0); w->CK = 0; C.U_REG = P(0x3f); C.V_REG = P(0x10); cycle_2030();    /* address beyond storage */
    word(1, 0); w->CA = 9; w->CF = 3; w->CD = 7; C.L_REG = P(0x5a); C.R_REG = P(0x11); cycle_2030();
    if (C.R_REG != P(0x11)) { printf("R %03x\\n", C.R_REG); return 1; }
    return 0;
}
''', "an access beyond the installed storage followed by a load of the storage data register", "the storage data register is overwritten although the access was invalid")

go("b03-digit-test", "C03", [(F, "nextWX |= !(((cpu_2030.R_REG | (cpu_2030.R_REG << 1)) & (cpu_2030.R_REG >> 1)) & 0x44);",
    "nextWX |= !(((cpu_2030.R_REG | (cpu_2030.R_REG << 1)) & (cpu_2030.R_REG >> 1)) & 0x44) || (cpu_2030.R_REG & 0xff) == 0xee;")],
  INC + '''int main(void) {
    unsigned v; init(65536);
    for (v = 0; v < 256; v++) {
        int ok = (v & 15) <= 9 && (v >> 4) <= 9;
        word(1, 0); w->CL = 5; w->CN = 0x10; C.R_REG = P(v); cycle_2030();
        if ((C.WX & 1) != ok) { printf("digits %02x\\n", v); return 1; }
    }
    return 0;
}
''', "the digit-validity branch on the byte EE", "an invalid decimal byte is accepted as two valid digits")

go("b04-key-compare", "C04", [(F, "(((cpu_2030.Q_REG >> 4) ^ cpu_2030.Q_REG) & 0xf) != 0) {",
    "(((cpu_2030.Q_REG >> 4) ^ cpu_2030.Q_REG) & 0x7) != 0) {")],
  INC + '''int main(void) {
    unsigned k, q; 
    init(65536);
    for (k = 0; k < 16; k++) for (q = 1; q < 16; q++) {
        M[0x1234] = P(0x77); C.MP[0xe0 | 2] = k; C.Q_REG = q << 4;
        C.allow_write = 0; C.H_REG = 0x100;
        word(4, 0); C.U_REG = P(0x12); C.V_REG = P(0x34); cycle_2030();
        word(2, 0); C.R_REG = P(0x99); cycle_2030();
        if (k != q && M[0x1234] != P(0x77)) { printf("stored with key %x into block of key %x\\n", q, k); return 1; }
        if (k == q && M[0x1234] != P(0x99)) { printf("not stored, key %x\\n", q); return 1; }
        C.allow_write = 0; word(1, 0); cycle_2030(); C.allow_write = 0;
    }
    return 0;
}
''', "a store where protection key and storage key differ only in their high bit", "a store into storage of a different key is carried out")

go("b05-channel-count", "C05", [(F, '''           if (cpu_2030.GHZ == 0xff)
               cpu_2030.GHY = (cpu_2030.GHY - 1) & 0xff;
           /* Clear flag''', '''           if (cpu_2030.GHZ == 0xff && cpu_2030.GHY != 0x80)
               cpu_2030.GHY = (cpu_2030.GHY - 1) & 0xff;
           /* Clear flag''')],
  INC + '''int main(void) {
    unsigned n; init(65536);
    for (n = 1; n < 65536; n++) {
        word(1, 0); C.clock_start_lch = 0;
        sel_share_req = 1; sel_read_cycle[0] = 1; sel_write_cycle[0] = 0;
        C.GC[0] = P(n >> 8); C.GD[0] = P(n); C.GU[0] = P(0x20); C.GV[0] = P(0x30); C.GG[0] = P(2);
        cycle_2030();
        if ((((C.GU[0] & 0xff) << 8) | (C.GV[0] & 0xff)) != n - 1) { printf("count %x -> %x%02x\\n", n, C.GU[0], C.GV[0]); return 1; }
    }
    return 0;
}
''', "a channel transfer whose count passes 8000 hex", "the channel count does not borrow there, so the transfer runs 256 bytes too far")

go("b06-console-h", "C06", [(F, """           case 0x3a: cpu_2030.H_REG = cpu_2030.Alu_out;                /* H */  break;
           default:""", """           case 0x3a: cpu_2030.H_REG = cpu_2030.Alu_out & ~BIT5;        /* H */  break;
           default:""")],
  INC + '''int main(void) {
    unsigned v; init(65536);
    C.clock_start_lch = 0; C.allow_man_operation = 1; priority_lch = 1;
    for (v = 0; v < 256; v++) {
        E_SW = 0x3a; H_SW = v >> 4; J_SW = v & 15;
        STORE = 1; cycle_2030();
        if ((C.H_REG & 0xff) != v) { printf("H %02x: %03x\\n", v, C.H_REG); return 1; }
    }
    return 0;
}
''', "a console store into the H register with its channel bit on", "the bit dialled is not stored")
