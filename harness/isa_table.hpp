#pragma once
// The LoongArch encodings of every instruction the library knows (from the GNU binutils 2.42 opcode table).
// ISA(name, match, mask)
#define ISA_TABLE(ISA) \
	ISA(ADD_D, 0x00108000u, 0xffff8000u) \
	ISA(ADDI_D, 0x02c00000u, 0xffc00000u) \
	ISA(ADDI_W, 0x02800000u, 0xffc00000u) \
	ISA(ADDU16I_D, 0x10000000u, 0xfc000000u) \
	ISA(ADD_W, 0x00100000u, 0xffff8000u) \
	ISA(ALSL_D, 0x002c0000u, 0xfffe0000u) \
	ISA(ALSL_W, 0x00040000u, 0xfffe0000u) \
	ISA(AMADD_D, 0x38618000u, 0xffff8000u) \
	ISA(AMADD_D, 0x386a8000u, 0xffff8000u) \
	ISA(AMADD_W, 0x38610000u, 0xffff8000u) \
	ISA(AMADD_W, 0x386a0000u, 0xffff8000u) \
	ISA(AMAND_D, 0x38628000u, 0xffff8000u) \
	ISA(AMAND_D, 0x386b8000u, 0xffff8000u) \
	ISA(AMAND_W, 0x38620000u, 0xffff8000u) \
	ISA(AMAND_W, 0x386b0000u, 0xffff8000u) \
	ISA(AMOR_D, 0x38638000u, 0xffff8000u) \
	ISA(AMOR_D, 0x386c8000u, 0xffff8000u) \
	ISA(AMOR_W, 0x38630000u, 0xffff8000u) \
	ISA(AMOR_W, 0x386c0000u, 0xffff8000u) \
	ISA(AMSWAP_D, 0x38608000u, 0xffff8000u) \
	ISA(AMSWAP_D, 0x38698000u, 0xffff8000u) \
	ISA(AMSWAP_W, 0x38600000u, 0xffff8000u) \
	ISA(AMSWAP_W, 0x38690000u, 0xffff8000u) \
	ISA(AMXOR_D, 0x38648000u, 0xffff8000u) \
	ISA(AMXOR_D, 0x386d8000u, 0xffff8000u) \
	ISA(AMXOR_W, 0x38640000u, 0xffff8000u) \
	ISA(AMXOR_W, 0x386d0000u, 0xffff8000u) \
	ISA(AND, 0x00148000u, 0xffff8000u) \
	ISA(ANDI, 0x03400000u, 0xffc00000u) \
	ISA(ANDN, 0x00168000u, 0xffff8000u) \
	ISA(B, 0x50000000u, 0xfc000000u) \
	ISA(BCEQZ, 0x48000000u, 0xfc000300u) \
	ISA(BCNEZ, 0x48000100u, 0xfc000300u) \
	ISA(BEQ, 0x58000000u, 0xfc000000u) \
	ISA(BEQZ, 0x40000000u, 0xfc000000u) \
	ISA(BGE, 0x64000000u, 0xfc000000u) \
	ISA(BGEU, 0x6c000000u, 0xfc000000u) \
	ISA(BITREV_4B, 0x00004800u, 0xfffffc00u) \
	ISA(BITREV_8B, 0x00004c00u, 0xfffffc00u) \
	ISA(BITREV_D, 0x00005400u, 0xfffffc00u) \
	ISA(BITREV_W, 0x00005000u, 0xfffffc00u) \
	ISA(BL, 0x54000000u, 0xfc000000u) \
	ISA(BLT, 0x60000000u, 0xfc000000u) \
	ISA(BLTU, 0x68000000u, 0xfc000000u) \
	ISA(BNE, 0x5c000000u, 0xfc000000u) \
	ISA(BNEZ, 0x44000000u, 0xfc000000u) \
	ISA(BREAK, 0x002a0000u, 0xffff8000u) \
	ISA(BSTRINS_D, 0x00800000u, 0xffc00000u) \
	ISA(BSTRINS_W, 0x00600000u, 0xffe08000u) \
	ISA(BSTRPICK_D, 0x00c00000u, 0xffc00000u) \
	ISA(BSTRPICK_W, 0x00608000u, 0xffe08000u) \
	ISA(BYTEPICK_D, 0x000c0000u, 0xfffc0000u) \
	ISA(CLO_D, 0x00002000u, 0xfffffc00u) \
	ISA(CLO_W, 0x00001000u, 0xfffffc00u) \
	ISA(CLZ_D, 0x00002400u, 0xfffffc00u) \
	ISA(CLZ_W, 0x00001400u, 0xfffffc00u) \
	ISA(CPUCFG, 0x00006c00u, 0xfffffc00u) \
	ISA(CTO_D, 0x00002800u, 0xfffffc00u) \
	ISA(CTO_W, 0x00001800u, 0xfffffc00u) \
	ISA(CTZ_D, 0x00002c00u, 0xfffffc00u) \
	ISA(CTZ_W, 0x00001c00u, 0xfffffc00u) \
	ISA(DBAR, 0x38720000u, 0xffff8000u) \
	ISA(DIV_D, 0x00220000u, 0xffff8000u) \
	ISA(DIV_DU, 0x00230000u, 0xffff8000u) \
	ISA(DIV_W, 0x00200000u, 0xffff8000u) \
	ISA(DIV_WU, 0x00210000u, 0xffff8000u) \
	ISA(EXT_W_B, 0x00005c00u, 0xfffffc00u) \
	ISA(EXT_W_H, 0x00005800u, 0xfffffc00u) \
	ISA(FABS_D, 0x01140800u, 0xfffffc00u) \
	ISA(FABS_S, 0x01140400u, 0xfffffc00u) \
	ISA(FADD_D, 0x01010000u, 0xffff8000u) \
	ISA(FADD_S, 0x01008000u, 0xffff8000u) \
	ISA(FCLASS_D, 0x01143800u, 0xfffffc00u) \
	ISA(FCLASS_S, 0x01143400u, 0xfffffc00u) \
	ISA(FCMP_COND_D, 0x0c200000u, 0xfff00018u) \
	ISA(FCMP_COND_S, 0x0c100000u, 0xfff00018u) \
	ISA(FCVT_D_S, 0x01192400u, 0xfffffc00u) \
	ISA(FCVT_S_D, 0x01191800u, 0xfffffc00u) \
	ISA(FDIV_D, 0x01070000u, 0xffff8000u) \
	ISA(FDIV_S, 0x01068000u, 0xffff8000u) \
	ISA(FFINT_D_L, 0x011d2800u, 0xfffffc00u) \
	ISA(FFINT_D_W, 0x011d2000u, 0xfffffc00u) \
	ISA(FFINT_S_L, 0x011d1800u, 0xfffffc00u) \
	ISA(FFINT_S_W, 0x011d1000u, 0xfffffc00u) \
	ISA(FLD_D, 0x2b800000u, 0xffc00000u) \
	ISA(FLD_S, 0x2b000000u, 0xffc00000u) \
	ISA(FLDX_D, 0x38340000u, 0xffff8000u) \
	ISA(FLDX_S, 0x38300000u, 0xffff8000u) \
	ISA(FMADD_D, 0x08200000u, 0xfff00000u) \
	ISA(FMADD_S, 0x08100000u, 0xfff00000u) \
	ISA(FMAX_D, 0x01090000u, 0xffff8000u) \
	ISA(FMAX_S, 0x01088000u, 0xffff8000u) \
	ISA(FMIN_D, 0x010b0000u, 0xffff8000u) \
	ISA(FMIN_S, 0x010a8000u, 0xffff8000u) \
	ISA(FMOV_D, 0x01149800u, 0xfffffc00u) \
	ISA(FMOV_S, 0x01149400u, 0xfffffc00u) \
	ISA(FMSUB_D, 0x08600000u, 0xfff00000u) \
	ISA(FMSUB_S, 0x08500000u, 0xfff00000u) \
	ISA(FMUL_D, 0x01050000u, 0xffff8000u) \
	ISA(FMUL_S, 0x01048000u, 0xffff8000u) \
	ISA(FNEG_D, 0x01141800u, 0xfffffc00u) \
	ISA(FNMADD_D, 0x08a00000u, 0xfff00000u) \
	ISA(FNMADD_S, 0x08900000u, 0xfff00000u) \
	ISA(FNMSUB_D, 0x08e00000u, 0xfff00000u) \
	ISA(FNMSUB_S, 0x08d00000u, 0xfff00000u) \
	ISA(FSEL, 0x0d000000u, 0xfffc0000u) \
	ISA(FST_D, 0x2bc00000u, 0xffc00000u) \
	ISA(FST_S, 0x2b400000u, 0xffc00000u) \
	ISA(FSTX_D, 0x383c0000u, 0xffff8000u) \
	ISA(FSTX_S, 0x38380000u, 0xffff8000u) \
	ISA(FSUB_D, 0x01030000u, 0xffff8000u) \
	ISA(FSUB_S, 0x01028000u, 0xffff8000u) \
	ISA(FTINTRZ_L_D, 0x011aa800u, 0xfffffc00u) \
	ISA(FTINTRZ_L_S, 0x011aa400u, 0xfffffc00u) \
	ISA(FTINTRZ_W_D, 0x011a8800u, 0xfffffc00u) \
	ISA(FTINTRZ_W_S, 0x011a8400u, 0xfffffc00u) \
	ISA(IBAR, 0x38728000u, 0xffff8000u) \
	ISA(JIRL, 0x4c000000u, 0xfc000000u) \
	ISA(LD_B, 0x28000000u, 0xffc00000u) \
	ISA(LD_BU, 0x2a000000u, 0xffc00000u) \
	ISA(LD_D, 0x28c00000u, 0xffc00000u) \
	ISA(LD_H, 0x28400000u, 0xffc00000u) \
	ISA(LD_HU, 0x2a400000u, 0xffc00000u) \
	ISA(LDPTR_D, 0x26000000u, 0xff000000u) \
	ISA(LDPTR_W, 0x24000000u, 0xff000000u) \
	ISA(LD_W, 0x28800000u, 0xffc00000u) \
	ISA(LD_WU, 0x2a800000u, 0xffc00000u) \
	ISA(LDX_B, 0x38000000u, 0xffff8000u) \
	ISA(LDX_BU, 0x38200000u, 0xffff8000u) \
	ISA(LDX_D, 0x380c0000u, 0xffff8000u) \
	ISA(LDX_H, 0x38040000u, 0xffff8000u) \
	ISA(LDX_HU, 0x38240000u, 0xffff8000u) \
	ISA(LDX_W, 0x38080000u, 0xffff8000u) \
	ISA(LDX_WU, 0x38280000u, 0xffff8000u) \
	ISA(LL_D, 0x22000000u, 0xff000000u) \
	ISA(LL_W, 0x20000000u, 0xff000000u) \
	ISA(LU12I_W, 0x14000000u, 0xfe000000u) \
	ISA(LU32I_D, 0x16000000u, 0xfe000000u) \
	ISA(LU52I_D, 0x03000000u, 0xffc00000u) \
	ISA(MASKEQZ, 0x00130000u, 0xffff8000u) \
	ISA(MASKNEZ, 0x00138000u, 0xffff8000u) \
	ISA(MOD_D, 0x00228000u, 0xffff8000u) \
	ISA(MOD_DU, 0x00238000u, 0xffff8000u) \
	ISA(MOD_W, 0x00208000u, 0xffff8000u) \
	ISA(MOD_WU, 0x00218000u, 0xffff8000u) \
	ISA(MOVCF2FR, 0x0114d400u, 0xffffff00u) \
	ISA(MOVCF2GR, 0x0114dc00u, 0xffffff00u) \
	ISA(MOVFCSR2GR, 0x0114c800u, 0xffffff80u) \
	ISA(MOVFR2CF, 0x0114d000u, 0xfffffc18u) \
	ISA(MOVFR2GR_D, 0x0114b800u, 0xfffffc00u) \
	ISA(MOVFR2GR_S, 0x0114b400u, 0xfffffc00u) \
	ISA(MOVGR2CF, 0x0114d800u, 0xfffffc18u) \
	ISA(MOVGR2FR_D, 0x0114a800u, 0xfffffc00u) \
	ISA(MOVGR2FR_W, 0x0114a400u, 0xfffffc00u) \
	ISA(MUL_D, 0x001d8000u, 0xffff8000u) \
	ISA(MULH_D, 0x001e0000u, 0xffff8000u) \
	ISA(MULH_DU, 0x001e8000u, 0xffff8000u) \
	ISA(MULH_W, 0x001c8000u, 0xffff8000u) \
	ISA(MULH_WU, 0x001d0000u, 0xffff8000u) \
	ISA(MUL_W, 0x001c0000u, 0xffff8000u) \
	ISA(NOP, 0x03400000u, 0xffffffffu) \
	ISA(NOR, 0x00140000u, 0xffff8000u) \
	ISA(OR, 0x00150000u, 0xffff8000u) \
	ISA(ORI, 0x03800000u, 0xffc00000u) \
	ISA(ORN, 0x00160000u, 0xffff8000u) \
	ISA(PCADDI, 0x18000000u, 0xfe000000u) \
	ISA(PCADDU12I, 0x1c000000u, 0xfe000000u) \
	ISA(PCADDU18I, 0x1e000000u, 0xfe000000u) \
	ISA(PCALAU12I, 0x1a000000u, 0xfe000000u) \
	ISA(PRELD, 0x2ac00000u, 0xffc00000u) \
	ISA(RDTIME_D, 0x00006800u, 0xfffffc00u) \
	ISA(REVB_2H, 0x00003000u, 0xfffffc00u) \
	ISA(REVB_2W, 0x00003800u, 0xfffffc00u) \
	ISA(REVB_4H, 0x00003400u, 0xfffffc00u) \
	ISA(REVB_D, 0x00003c00u, 0xfffffc00u) \
	ISA(REVH_2W, 0x00004000u, 0xfffffc00u) \
	ISA(REVH_D, 0x00004400u, 0xfffffc00u) \
	ISA(ROTR_D, 0x001b8000u, 0xffff8000u) \
	ISA(ROTRI_D, 0x004d0000u, 0xffff0000u) \
	ISA(ROTRI_W, 0x004c8000u, 0xffff8000u) \
	ISA(ROTR_W, 0x001b0000u, 0xffff8000u) \
	ISA(SC_D, 0x23000000u, 0xff000000u) \
	ISA(SC_W, 0x21000000u, 0xff000000u) \
	ISA(SLL_D, 0x00188000u, 0xffff8000u) \
	ISA(SLLI_D, 0x00410000u, 0xffff0000u) \
	ISA(SLLI_W, 0x00408000u, 0xffff8000u) \
	ISA(SLL_W, 0x00170000u, 0xffff8000u) \
	ISA(SLT, 0x00120000u, 0xffff8000u) \
	ISA(SLTI, 0x02000000u, 0xffc00000u) \
	ISA(SLTU, 0x00128000u, 0xffff8000u) \
	ISA(SLTUI, 0x02400000u, 0xffc00000u) \
	ISA(SRA_D, 0x00198000u, 0xffff8000u) \
	ISA(SRAI_D, 0x00490000u, 0xffff0000u) \
	ISA(SRAI_W, 0x00488000u, 0xffff8000u) \
	ISA(SRA_W, 0x00180000u, 0xffff8000u) \
	ISA(SRL_D, 0x00190000u, 0xffff8000u) \
	ISA(SRLI_D, 0x00450000u, 0xffff0000u) \
	ISA(SRLI_W, 0x00448000u, 0xffff8000u) \
	ISA(SRL_W, 0x00178000u, 0xffff8000u) \
	ISA(ST_B, 0x29000000u, 0xffc00000u) \
	ISA(ST_D, 0x29c00000u, 0xffc00000u) \
	ISA(ST_H, 0x29400000u, 0xffc00000u) \
	ISA(STPTR_D, 0x27000000u, 0xff000000u) \
	ISA(STPTR_W, 0x25000000u, 0xff000000u) \
	ISA(ST_W, 0x29800000u, 0xffc00000u) \
	ISA(STX_B, 0x38100000u, 0xffff8000u) \
	ISA(STX_D, 0x381c0000u, 0xffff8000u) \
	ISA(STX_H, 0x38140000u, 0xffff8000u) \
	ISA(STX_W, 0x38180000u, 0xffff8000u) \
	ISA(SUB_D, 0x00118000u, 0xffff8000u) \
	ISA(SUB_W, 0x00110000u, 0xffff8000u) \
	ISA(SYSCALL, 0x002b0000u, 0xffff8000u) \
	ISA(VADD_B, 0x700a0000u, 0xffff8000u) \
	ISA(VADD_D, 0x700b8000u, 0xffff8000u) \
	ISA(VADD_H, 0x700a8000u, 0xffff8000u) \
	ISA(VADDI_BU, 0x728a0000u, 0xffff8000u) \
	ISA(VADDI_DU, 0x728b8000u, 0xffff8000u) \
	ISA(VADDI_HU, 0x728a8000u, 0xffff8000u) \
	ISA(VADDI_WU, 0x728b0000u, 0xffff8000u) \
	ISA(VADD_W, 0x700b0000u, 0xffff8000u) \
	ISA(VAND_V, 0x71260000u, 0xffff8000u) \
	ISA(VBITREVI_D, 0x73190000u, 0xffff0000u) \
	ISA(VBITSEL_V, 0x0d100000u, 0xfff00000u) \
	ISA(VFADD_D, 0x71310000u, 0xffff8000u) \
	ISA(VFCMP_COND_D, 0x0c600000u, 0xfff00000u) \
	ISA(VFDIV_D, 0x713b0000u, 0xffff8000u) \
	ISA(VFMADD_D, 0x09200000u, 0xfff00000u) \
	ISA(VFMUL_D, 0x71390000u, 0xffff8000u) \
	ISA(VFMUL_S, 0x71388000u, 0xffff8000u) \
	ISA(VFNMADD_D, 0x09a00000u, 0xfff00000u) \
	ISA(VFRSTPI_B, 0x729a0000u, 0xffff8000u) \
	ISA(VFTINTRZ_L_D, 0x729e4c00u, 0xfffffc00u) \
	ISA(VFTINTRZ_W_S, 0x729e4800u, 0xfffffc00u) \
	ISA(VHADDW_D_W, 0x70550000u, 0xffff8000u) \
	ISA(VILVH_D, 0x711d8000u, 0xffff8000u) \
	ISA(VILVL_B, 0x711a0000u, 0xffff8000u) \
	ISA(VILVL_D, 0x711b8000u, 0xffff8000u) \
	ISA(VILVL_H, 0x711a8000u, 0xffff8000u) \
	ISA(VILVL_W, 0x711b0000u, 0xffff8000u) \
	ISA(VINSGR2VR_B, 0x72eb8000u, 0xffffc000u) \
	ISA(VINSGR2VR_D, 0x72ebf000u, 0xfffff800u) \
	ISA(VINSGR2VR_H, 0x72ebc000u, 0xffffe000u) \
	ISA(VINSGR2VR_W, 0x72ebe000u, 0xfffff000u) \
	ISA(VLD, 0x2c000000u, 0xffc00000u) \
	ISA(VLDI, 0x73e00000u, 0xfffc0000u) \
	ISA(VLDX, 0x38400000u, 0xffff8000u) \
	ISA(VMADD_B, 0x70a80000u, 0xffff8000u) \
	ISA(VMADD_D, 0x70a98000u, 0xffff8000u) \
	ISA(VMADD_H, 0x70a88000u, 0xffff8000u) \
	ISA(VMADD_W, 0x70a90000u, 0xffff8000u) \
	ISA(VMAX_B, 0x70700000u, 0xffff8000u) \
	ISA(VMAX_BU, 0x70740000u, 0xffff8000u) \
	ISA(VMAX_D, 0x70718000u, 0xffff8000u) \
	ISA(VMAX_DU, 0x70758000u, 0xffff8000u) \
	ISA(VMAX_H, 0x70708000u, 0xffff8000u) \
	ISA(VMAX_HU, 0x70748000u, 0xffff8000u) \
	ISA(VMAX_W, 0x70710000u, 0xffff8000u) \
	ISA(VMAX_WU, 0x70750000u, 0xffff8000u) \
	ISA(VMIN_B, 0x70720000u, 0xffff8000u) \
	ISA(VMIN_BU, 0x70760000u, 0xffff8000u) \
	ISA(VMIN_D, 0x70738000u, 0xffff8000u) \
	ISA(VMIN_DU, 0x70778000u, 0xffff8000u) \
	ISA(VMIN_H, 0x70728000u, 0xffff8000u) \
	ISA(VMIN_HU, 0x70768000u, 0xffff8000u) \
	ISA(VMIN_W, 0x70730000u, 0xffff8000u) \
	ISA(VMIN_WU, 0x70770000u, 0xffff8000u) \
	ISA(VMSKNZ_B, 0x729c6000u, 0xfffffc00u) \
	ISA(VMUL_B, 0x70840000u, 0xffff8000u) \
	ISA(VMUL_D, 0x70858000u, 0xffff8000u) \
	ISA(VMUL_H, 0x70848000u, 0xffff8000u) \
	ISA(VMUL_W, 0x70850000u, 0xffff8000u) \
	ISA(VNOR_V, 0x71278000u, 0xffff8000u) \
	ISA(VORI_B, 0x73d40000u, 0xfffc0000u) \
	ISA(VORN_V, 0x71288000u, 0xffff8000u) \
	ISA(VOR_V, 0x71268000u, 0xffff8000u) \
	ISA(VPCNT_B, 0x729c2000u, 0xfffffc00u) \
	ISA(VPCNT_D, 0x729c2c00u, 0xfffffc00u) \
	ISA(VPCNT_H, 0x729c2400u, 0xfffffc00u) \
	ISA(VPCNT_W, 0x729c2800u, 0xfffffc00u) \
	ISA(VPICKEV_W, 0x711f0000u, 0xffff8000u) \
	ISA(VPICKVE2GR_B, 0x72ef8000u, 0xffffc000u) \
	ISA(VPICKVE2GR_BU, 0x72f38000u, 0xffffc000u) \
	ISA(VPICKVE2GR_D, 0x72eff000u, 0xfffff800u) \
	ISA(VPICKVE2GR_DU, 0x72f3f000u, 0xfffff800u) \
	ISA(VPICKVE2GR_H, 0x72efc000u, 0xffffe000u) \
	ISA(VPICKVE2GR_HU, 0x72f3c000u, 0xffffe000u) \
	ISA(VPICKVE2GR_W, 0x72efe000u, 0xfffff000u) \
	ISA(VPICKVE2GR_WU, 0x72f3e000u, 0xfffff000u) \
	ISA(VREPLGR2VR_B, 0x729f0000u, 0xfffffc00u) \
	ISA(VREPLGR2VR_D, 0x729f0c00u, 0xfffffc00u) \
	ISA(VREPLGR2VR_H, 0x729f0400u, 0xfffffc00u) \
	ISA(VREPLGR2VR_W, 0x729f0800u, 0xfffffc00u) \
	ISA(VREPLVEI_D, 0x72f7f000u, 0xfffff800u) \
	ISA(VSEQ_B, 0x70000000u, 0xffff8000u) \
	ISA(VSEQI_B, 0x72800000u, 0xffff8000u) \
	ISA(VSEQI_D, 0x72818000u, 0xffff8000u) \
	ISA(VSEQI_H, 0x72808000u, 0xffff8000u) \
	ISA(VSEQI_W, 0x72810000u, 0xffff8000u) \
	ISA(VSETALLNEZ_B, 0x729cb000u, 0xfffffc18u) \
	ISA(VSETANYEQZ_B, 0x729ca000u, 0xfffffc18u) \
	ISA(VSHUF_B, 0x0d500000u, 0xfff00000u) \
	ISA(VSLLI_B, 0x732c2000u, 0xffffe000u) \
	ISA(VSLLI_D, 0x732d0000u, 0xffff0000u) \
	ISA(VSLLI_H, 0x732c4000u, 0xffffc000u) \
	ISA(VSLLI_W, 0x732c8000u, 0xffff8000u) \
	ISA(VSLT_B, 0x70060000u, 0xffff8000u) \
	ISA(VSLT_D, 0x70078000u, 0xffff8000u) \
	ISA(VSLT_H, 0x70068000u, 0xffff8000u) \
	ISA(VSLT_W, 0x70070000u, 0xffff8000u) \
	ISA(VST, 0x2c400000u, 0xffc00000u) \
	ISA(VSTX, 0x38440000u, 0xffff8000u) \
	ISA(VSUB_B, 0x700c0000u, 0xffff8000u) \
	ISA(VSUB_D, 0x700d8000u, 0xffff8000u) \
	ISA(VSUB_H, 0x700c8000u, 0xffff8000u) \
	ISA(VSUB_W, 0x700d0000u, 0xffff8000u) \
	ISA(VXOR_V, 0x71270000u, 0xffff8000u) \
	ISA(XOR, 0x00158000u, 0xffff8000u) \
	ISA(XORI, 0x03c00000u, 0xffc00000u) \
	ISA(XVADD_D, 0x740b8000u, 0xffff8000u) \
	ISA(XVBITREVI_D, 0x77190000u, 0xffff0000u) \
	ISA(XVBITSEL_V, 0x0d200000u, 0xfff00000u) \
	ISA(XVFADD_D, 0x75310000u, 0xffff8000u) \
	ISA(XVFCMP_COND_D, 0x0ca00000u, 0xfff00000u) \
	ISA(XVFDIV_D, 0x753b0000u, 0xffff8000u) \
	ISA(XVFMADD_D, 0x0a200000u, 0xfff00000u) \
	ISA(XVFMADD_S, 0x0a100000u, 0xfff00000u) \
	ISA(XVFMSUB_D, 0x0a600000u, 0xfff00000u) \
	ISA(XVFMSUB_S, 0x0a500000u, 0xfff00000u) \
	ISA(XVFMUL_D, 0x75390000u, 0xffff8000u) \
	ISA(XVFNMADD_D, 0x0aa00000u, 0xfff00000u) \
	ISA(XVFNMADD_S, 0x0a900000u, 0xfff00000u) \
	ISA(XVFNMSUB_D, 0x0ae00000u, 0xfff00000u) \
	ISA(XVFNMSUB_S, 0x0ad00000u, 0xfff00000u) \
	ISA(XVFSUB_D, 0x75330000u, 0xffff8000u) \
	ISA(XVHADDW_D_W, 0x74550000u, 0xffff8000u) \
	ISA(XVHADDW_Q_D, 0x74558000u, 0xffff8000u) \
	ISA(XVILVH_D, 0x751d8000u, 0xffff8000u) \
	ISA(XVILVL_D, 0x751b8000u, 0xffff8000u) \
	ISA(XVLD, 0x2c800000u, 0xffc00000u) \
	ISA(XVLDI, 0x77e00000u, 0xfffc0000u) \
	ISA(XVLDX, 0x38480000u, 0xffff8000u) \
	ISA(XVMAX_BU, 0x74740000u, 0xffff8000u) \
	ISA(XVMIN_BU, 0x74760000u, 0xffff8000u) \
	ISA(XVMSKNZ_B, 0x769c6000u, 0xfffffc00u) \
	ISA(XVORI_B, 0x77d40000u, 0xfffc0000u) \
	ISA(XVPACKEV_D, 0x75178000u, 0xffff8000u) \
	ISA(XVPACKOD_D, 0x75198000u, 0xffff8000u) \
	ISA(XVPERMI_D, 0x77e80000u, 0xfffc0000u) \
	ISA(XVPERMI_Q, 0x77ec0000u, 0xfffc0000u) \
	ISA(XVPICKEV_D, 0x751f8000u, 0xffff8000u) \
	ISA(XVPICKEV_W, 0x751f0000u, 0xffff8000u) \
	ISA(XVPICKOD_D, 0x75218000u, 0xffff8000u) \
	ISA(XVPICKVE2GR_W, 0x76efc000u, 0xffffe000u) \
	ISA(XVPICKVE_W, 0x7703c000u, 0xffffe000u) \
	ISA(XVREPLGR2VR_B, 0x769f0000u, 0xfffffc00u) \
	ISA(XVREPLVE_D, 0x75238000u, 0xffff8000u) \
	ISA(XVSEQ_B, 0x74000000u, 0xffff8000u) \
	ISA(XVSETANYEQZ_B, 0x769ca000u, 0xfffffc18u) \
	ISA(XVSETEQZ_V, 0x769c9800u, 0xfffffc18u) \
	ISA(XVST, 0x2cc00000u, 0xffc00000u) \
	ISA(XVSTX, 0x384c0000u, 0xffff8000u) \
	ISA(XVSUB_W, 0x740d0000u, 0xffff8000u) \
	ISA(XVXORI_B, 0x77d80000u, 0xfffc0000u) \
	ISA(XVXOR_V, 0x75270000u, 0xffff8000u) \

