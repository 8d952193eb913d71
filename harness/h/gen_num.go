package h

// generated by tools/gen_num.py

import "github.com/myyrakle/gost"

func H_C01_AddSub_ISize() { chkAddSub(tISize) }
func H_C01_AddSub_I8()    { chkAddSub(tI8) }
func H_C01_AddSub_I16()   { chkAddSub(tI16) }
func H_C01_AddSub_I32()   { chkAddSub(tI32) }
func H_C01_AddSub_I64()   { chkAddSub(tI64) }
func H_C01_AddSub_USize() { chkAddSub(tUSize) }
func H_C01_AddSub_U8()    { chkAddSub(tU8) }
func H_C01_AddSub_U16()   { chkAddSub(tU16) }
func H_C01_AddSub_U32()   { chkAddSub(tU32) }
func H_C01_AddSub_U64()   { chkAddSub(tU64) }

func H_C01_Mul_ISize() { chkMul(tISize) }
func H_C01_Mul_I8()    { chkMul(tI8) }
func H_C01_Mul_I16()   { chkMul(tI16) }
func H_C01_Mul_I32()   { chkMul(tI32) }
func H_C01_Mul_I64()   { chkMul(tI64) }
func H_C01_Mul_USize() { chkMul(tUSize) }
func H_C01_Mul_U8()    { chkMul(tU8) }
func H_C01_Mul_U16()   { chkMul(tU16) }
func H_C01_Mul_U32()   { chkMul(tU32) }
func H_C01_Mul_U64()   { chkMul(tU64) }

func H_C01_DivRem_ISize() { chkDiv(tISize) }
func H_C01_DivRem_I8()    { chkDiv(tI8) }
func H_C01_DivRem_I16()   { chkDiv(tI16) }
func H_C01_DivRem_I32()   { chkDiv(tI32) }
func H_C01_DivRem_I64()   { chkDiv(tI64) }
func H_C01_DivRem_USize() { chkDiv(tUSize) }
func H_C01_DivRem_U8()    { chkDiv(tU8) }
func H_C01_DivRem_U16()   { chkDiv(tU16) }
func H_C01_DivRem_U32()   { chkDiv(tU32) }
func H_C01_DivRem_U64()   { chkDiv(tU64) }

func H_C02_Add_ISize() { satAdd(tISize) }
func H_C02_Add_I8()    { satAdd(tI8) }
func H_C02_Add_I16()   { satAdd(tI16) }
func H_C02_Add_I32()   { satAdd(tI32) }
func H_C02_Add_I64()   { satAdd(tI64) }
func H_C02_Add_USize() { satAdd(tUSize) }
func H_C02_Add_U8()    { satAdd(tU8) }
func H_C02_Add_U16()   { satAdd(tU16) }
func H_C02_Add_U32()   { satAdd(tU32) }
func H_C02_Add_U64()   { satAdd(tU64) }

func H_C02_Sub_ISize() { satSub(tISize) }
func H_C02_Sub_I8()    { satSub(tI8) }
func H_C02_Sub_I16()   { satSub(tI16) }
func H_C02_Sub_I32()   { satSub(tI32) }
func H_C02_Sub_I64()   { satSub(tI64) }
func H_C02_Sub_USize() { satSub(tUSize) }
func H_C02_Sub_U8()    { satSub(tU8) }
func H_C02_Sub_U16()   { satSub(tU16) }
func H_C02_Sub_U32()   { satSub(tU32) }
func H_C02_Sub_U64()   { satSub(tU64) }

func H_C02_Mul_ISize() { satMul(tISize) }
func H_C02_Mul_I8()    { satMul(tI8) }
func H_C02_Mul_I16()   { satMul(tI16) }
func H_C02_Mul_I32()   { satMul(tI32) }
func H_C02_Mul_I64()   { satMul(tI64) }
func H_C02_Mul_USize() { satMul(tUSize) }
func H_C02_Mul_U8()    { satMul(tU8) }
func H_C02_Mul_U16()   { satMul(tU16) }
func H_C02_Mul_U32()   { satMul(tU32) }
func H_C02_Mul_U64()   { satMul(tU64) }

func H_C02_Div_ISize() { satDiv(tISize) }
func H_C02_Div_I8()    { satDiv(tI8) }
func H_C02_Div_I16()   { satDiv(tI16) }
func H_C02_Div_I32()   { satDiv(tI32) }
func H_C02_Div_I64()   { satDiv(tI64) }
func H_C02_Div_USize() { satDiv(tUSize) }
func H_C02_Div_U8()    { satDiv(tU8) }
func H_C02_Div_U16()   { satDiv(tU16) }
func H_C02_Div_U32()   { satDiv(tU32) }
func H_C02_Div_U64()   { satDiv(tU64) }

func H_C03_Wrap_ISize() { wrapping(tISize) }
func H_C03_Wrap_I8()    { wrapping(tI8) }
func H_C03_Wrap_I16()   { wrapping(tI16) }
func H_C03_Wrap_I32()   { wrapping(tI32) }
func H_C03_Wrap_I64()   { wrapping(tI64) }
func H_C03_Wrap_USize() { wrapping(tUSize) }
func H_C03_Wrap_U8()    { wrapping(tU8) }
func H_C03_Wrap_U16()   { wrapping(tU16) }
func H_C03_Wrap_U32()   { wrapping(tU32) }
func H_C03_Wrap_U64()   { wrapping(tU64) }

func H_C04_Op_ISize() { operators[gost.ISize](tISize) }
func H_C04_Op_I8()    { operators[gost.I8](tI8) }
func H_C04_Op_I16()   { operators[gost.I16](tI16) }
func H_C04_Op_I32()   { operators[gost.I32](tI32) }
func H_C04_Op_I64()   { operators[gost.I64](tI64) }
func H_C04_Op_USize() { operators[gost.USize](tUSize) }
func H_C04_Op_U8()    { operators[gost.U8](tU8) }
func H_C04_Op_U16()   { operators[gost.U16](tU16) }
func H_C04_Op_U32()   { operators[gost.U32](tU32) }
func H_C04_Op_U64()   { operators[gost.U64](tU64) }

func H_C04_Neg_ISize() { negation(tISize) }
func H_C04_Neg_I8()    { negation(tI8) }
func H_C04_Neg_I16()   { negation(tI16) }
func H_C04_Neg_I32()   { negation(tI32) }
func H_C04_Neg_I64()   { negation(tI64) }

func H_C05_Abs_ISize() { absolute(tISize) }
func H_C05_Abs_I8()    { absolute(tI8) }
func H_C05_Abs_I16()   { absolute(tI16) }
func H_C05_Abs_I32()   { absolute(tI32) }
func H_C05_Abs_I64()   { absolute(tI64) }

func H_C05_AbsDiff_ISize() { absDiff(tISize, tUSize) }
func H_C05_AbsDiff_I8()    { absDiff(tI8, tU8) }
func H_C05_AbsDiff_I16()   { absDiff(tI16, tU16) }
func H_C05_AbsDiff_I32()   { absDiff(tI32, tU32) }
func H_C05_AbsDiff_I64()   { absDiff(tI64, tU64) }
func H_C05_AbsDiff_USize() { absDiff(tUSize, tUSize) }
func H_C05_AbsDiff_U8()    { absDiff(tU8, tU8) }
func H_C05_AbsDiff_U16()   { absDiff(tU16, tU16) }
func H_C05_AbsDiff_U32()   { absDiff(tU32, tU32) }
func H_C05_AbsDiff_U64()   { absDiff(tU64, tU64) }

func H_C05_Pow_ISize() { pow(tISize) }
func H_C05_Pow_I8()    { pow(tI8) }
func H_C05_Pow_I16()   { pow(tI16) }
func H_C05_Pow_I32()   { pow(tI32) }
func H_C05_Pow_I64()   { pow(tI64) }
func H_C05_Pow_USize() { pow(tUSize) }
func H_C05_Pow_U8()    { pow(tU8) }
func H_C05_Pow_U16()   { pow(tU16) }
func H_C05_Pow_U32()   { pow(tU32) }
func H_C05_Pow_U64()   { pow(tU64) }

func H_C05_PowLaw_I8()    { powLaw(tI8) }
func H_C05_PowLaw_U8()    { powLaw(tU8) }
func H_C05_PowLaw_I32()   { powLaw(tI32) }
func H_C05_PowLaw_U64()   { powLaw(tU64) }
func H_C05_PowLaw_USize() { powLaw(tUSize) }
func H_C05_PowLaw_I64()   { powLaw(tI64) }
func H_C05_PowLaw_U16()   { powLaw(tU16) }
func H_C05_PowLaw_I16()   { powLaw(tI16) }
func H_C05_PowLaw_U32()   { powLaw(tU32) }
func H_C05_PowLaw_ISize() { powLaw(tISize) }

func H_C06_Shift_ISize() { shifts(tISize) }
func H_C06_Shift_I8()    { shifts(tI8) }
func H_C06_Shift_I16()   { shifts(tI16) }
func H_C06_Shift_I32()   { shifts(tI32) }
func H_C06_Shift_I64()   { shifts(tI64) }
func H_C06_Shift_USize() { shifts(tUSize) }
func H_C06_Shift_U8()    { shifts(tU8) }
func H_C06_Shift_U16()   { shifts(tU16) }
func H_C06_Shift_U32()   { shifts(tU32) }
func H_C06_Shift_U64()   { shifts(tU64) }

func H_C09_Cmp_ISize() { totalOrder(tISize) }
func H_C09_Cmp_I8()    { totalOrder(tI8) }
func H_C09_Cmp_I16()   { totalOrder(tI16) }
func H_C09_Cmp_I32()   { totalOrder(tI32) }
func H_C09_Cmp_I64()   { totalOrder(tI64) }
func H_C09_Cmp_USize() { totalOrder(tUSize) }
func H_C09_Cmp_U8()    { totalOrder(tU8) }
func H_C09_Cmp_U16()   { totalOrder(tU16) }
func H_C09_Cmp_U32()   { totalOrder(tU32) }
func H_C09_Cmp_U64()   { totalOrder(tU64) }

func H_C10_Int_ISize() { intText(tISize) }
func H_C10_Int_I8()    { intText(tI8) }
func H_C10_Int_I16()   { intText(tI16) }
func H_C10_Int_I32()   { intText(tI32) }
func H_C10_Int_I64()   { intText(tI64) }
func H_C10_Int_USize() { intText(tUSize) }
func H_C10_Int_U8()    { intText(tU8) }
func H_C10_Int_U16()   { intText(tU16) }
func H_C10_Int_U32()   { intText(tU32) }
func H_C10_Int_U64()   { intText(tU64) }
