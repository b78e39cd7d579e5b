import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
H = [("demo50.h", open("/verif/tools/demo50.h").read())]
F = "src/model2050/cpu2050.c"
INC = '#include "demo50.h"\n'
only = sys.argv[1:]
def go(bid, *a, **k):
    if not only or bid in only: plant(bid, *a, extra=H, **k)

go("b07-dcbs-carry", "C07", [(F, "if ((carries & 0x00008000) != 0)", "if ((carries & 0x00000080) != 0)")],
  INC + """int main(void) {
    init(65536); C.BS_REG = 2; C.S_REG = 0;
    word(); w->lx = 1; w->ry = 1; w->ad = 12; C.L_REG = 0x00009000; C.R_REG = 0x00009000; cycle_2050();
    printf("S %02x\\n", C.S_REG);
    return (C.S_REG & 0x40) == 0;
}
""", "a decimal add whose byte mask starts at byte two, with different carries out of bytes two and three", "the decimal carry is taken from the wrong byte")

go("b08-sign-kept", "C08", [(F, "t1 = ((cpu_2050.S_REG & BIT4) == 0) ? MSIGN : 0;     /* <-- */", "t1 = ((cpu_2050.S_REG & BIT4) == 0 || sal->ad == 7) ? MSIGN : 0;     /* <-- */")],
  INC + """int main(void) {
    init(65536);
    word(); w->ry = 1; w->al = 2; w->ad = 7; w->tr = 1; C.L_REG = 0x41000000; C.R_REG = 0x00123456; C.S_REG = 0x08; cycle_2050();
    printf("R %08x\\n", C.R_REG);
    return C.R_REG != 0x41123456;
}
""", "a sign insertion from status bit 4 in a word that also separates the characteristic", "a positive floating-point result becomes negative")

go("b09-g-borrow", "C09", [(F, "cpu_2050.G1NEG |= (cpu_2050.G_REG == 0);\n                 cpu_2050.G2NEG |= ((cpu_2050.G_REG & 0xf) == 0);\n                 cpu_2050.G_REG = cpu_2050.G_REG - 1;\n",
    "cpu_2050.G2NEG |= ((cpu_2050.G_REG & 0xf) == 0);\n                 cpu_2050.G_REG = cpu_2050.G_REG - 1;\n                 cpu_2050.G1NEG |= ((cpu_2050.G_REG & 0xf0) == 0xf0);\n")],
  INC + '''int main(void) {
    init(65536);
    word(); w->dg = 4; C.G_REG = 0xf5; C.G1NEG = C.G2NEG = 0; cycle_2050();
    printf("G %02x G1NEG %d\\n", C.G_REG, C.G1NEG);
    return C.G1NEG != 0;
}
''', "a hot-one step of a G counter holding F1 to FF", "the counter says it passed zero while it still counts, ending long moves early")

go("b10-refetch", "C10", [(F, "if ((SA >> 2) == (cpu_2050.IA_REG >> 2)) {", "if (SA == cpu_2050.IA_REG) {")],
  INC + """int main(void) {
    init(65536); C.IA_REG = 0x102;
    word(); w->ry = 1; w->tr = 15; C.R_REG = 0x100; cycle_2050();
    idle(3);
    word(); w->ry = 1; w->tr = 4; C.R_REG = 0x12345678; cycle_2050();
    idle(3);
    printf("M %08x REFETCH %d\\n", M[0x100 >> 2], C.REFETCH);
    return M[0x100 >> 2] != 0x12345678 || !C.REFETCH;
}
""", "a store into the word that holds the next instruction in its second half", "the old instruction is executed from the prefetched word")

go("b11-both-external", "C11", [(F, "if (timer_update || ((INTR | timer_irq) && (cpu_2050.MASK & BIT7) != 0))", "if (timer_update || ((INTR ^ timer_irq) && (cpu_2050.MASK & BIT7) != 0))")],
  INC + """int main(void) {
    init(65536);
    word(); w->ab = 56; w->bb = 0; C.IA_REG = 0x102; C.REFETCH = 0; C.MASK = 1; INTR = 1; timer_irq = 1; cycle_2050();
    printf("next %03x\\n", C.ROAR);
    return C.ROAR != 0x203;
}
""", "the interrupt key is pressed while a timer interruption is pending", "instruction fetch sees no interruption although two are pending")

go("b12-test-and-set", "C12", [(F, "                                  0x80808080) != 0);", "                                  0x80808000) != 0);")],
  INC + """int main(void) {
    init(65536);
    word(); w->ss = 3; C.SDR_REG = 0x00000080; C.BS_REG = 1; C.CC = 0; C.mem_state = W1; cycle_2050();
    printf("CC %d\\n", C.CC);
    return C.CC != 1;
}
""", "test and set on the last byte of a word", "a lock that is held is reported as free")
