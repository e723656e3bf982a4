// traced operations (src/op.cpp): verbatim include
#include "/repo/src/op.cpp"
#include "varhelp.h"
extern "C" {
uint32_t w_kind_Evaluated() { return (uint32_t) VarKind::Evaluated; }
uint32_t w_kind_Undefined() { return (uint32_t) VarKind::Undefined; }
uint32_t w_kind_Literal() { return (uint32_t) VarKind::Literal; }
uint32_t w_kind_Neg() { return (uint32_t) VarKind::Neg; }
uint32_t w_kind_Not() { return (uint32_t) VarKind::Not; }
uint32_t w_kind_Sqrt() { return (uint32_t) VarKind::Sqrt; }
uint32_t w_kind_SqrtApprox() { return (uint32_t) VarKind::SqrtApprox; }
uint32_t w_kind_Abs() { return (uint32_t) VarKind::Abs; }
uint32_t w_kind_Add() { return (uint32_t) VarKind::Add; }
uint32_t w_kind_Sub() { return (uint32_t) VarKind::Sub; }
uint32_t w_kind_Mul() { return (uint32_t) VarKind::Mul; }
uint32_t w_kind_Div() { return (uint32_t) VarKind::Div; }
uint32_t w_kind_DivApprox() { return (uint32_t) VarKind::DivApprox; }
uint32_t w_kind_Mod() { return (uint32_t) VarKind::Mod; }
uint32_t w_kind_MulHi() { return (uint32_t) VarKind::MulHi; }
uint32_t w_kind_MulWide() { return (uint32_t) VarKind::MulWide; }
uint32_t w_kind_Fma() { return (uint32_t) VarKind::Fma; }
uint32_t w_kind_Min() { return (uint32_t) VarKind::Min; }
uint32_t w_kind_Max() { return (uint32_t) VarKind::Max; }
uint32_t w_kind_FMin() { return (uint32_t) VarKind::FMin; }
uint32_t w_kind_FMax() { return (uint32_t) VarKind::FMax; }
uint32_t w_kind_Copysign() { return (uint32_t) VarKind::Copysign; }
uint32_t w_kind_Ceil() { return (uint32_t) VarKind::Ceil; }
uint32_t w_kind_Floor() { return (uint32_t) VarKind::Floor; }
uint32_t w_kind_Round() { return (uint32_t) VarKind::Round; }
uint32_t w_kind_Trunc() { return (uint32_t) VarKind::Trunc; }
uint32_t w_kind_Eq() { return (uint32_t) VarKind::Eq; }
uint32_t w_kind_Neq() { return (uint32_t) VarKind::Neq; }
uint32_t w_kind_Lt() { return (uint32_t) VarKind::Lt; }
uint32_t w_kind_Le() { return (uint32_t) VarKind::Le; }
uint32_t w_kind_Gt() { return (uint32_t) VarKind::Gt; }
uint32_t w_kind_Ge() { return (uint32_t) VarKind::Ge; }
uint32_t w_kind_Select() { return (uint32_t) VarKind::Select; }
uint32_t w_kind_ArraySelect() { return (uint32_t) VarKind::ArraySelect; }
uint32_t w_kind_Popc() { return (uint32_t) VarKind::Popc; }
uint32_t w_kind_Clz() { return (uint32_t) VarKind::Clz; }
uint32_t w_kind_Ctz() { return (uint32_t) VarKind::Ctz; }
uint32_t w_kind_Brev() { return (uint32_t) VarKind::Brev; }
uint32_t w_kind_And() { return (uint32_t) VarKind::And; }
uint32_t w_kind_Or() { return (uint32_t) VarKind::Or; }
uint32_t w_kind_Xor() { return (uint32_t) VarKind::Xor; }
uint32_t w_kind_Shl() { return (uint32_t) VarKind::Shl; }
uint32_t w_kind_Shr() { return (uint32_t) VarKind::Shr; }
uint32_t w_kind_Rcp() { return (uint32_t) VarKind::Rcp; }
uint32_t w_kind_RcpApprox() { return (uint32_t) VarKind::RcpApprox; }
uint32_t w_kind_RSqrtApprox() { return (uint32_t) VarKind::RSqrtApprox; }
uint32_t w_kind_Sin() { return (uint32_t) VarKind::Sin; }
uint32_t w_kind_Cos() { return (uint32_t) VarKind::Cos; }
uint32_t w_kind_Exp2() { return (uint32_t) VarKind::Exp2; }
uint32_t w_kind_Log2() { return (uint32_t) VarKind::Log2; }
uint32_t w_kind_Tanh() { return (uint32_t) VarKind::Tanh; }
uint32_t w_kind_Cast() { return (uint32_t) VarKind::Cast; }
uint32_t w_kind_Bitcast() { return (uint32_t) VarKind::Bitcast; }
uint32_t w_kind_CoopVecLiteral() { return (uint32_t) VarKind::CoopVecLiteral; }
uint32_t w_op_Neg() { return (uint32_t) JitOp::Neg; }
uint32_t w_op_Not() { return (uint32_t) JitOp::Not; }
uint32_t w_op_Sqrt() { return (uint32_t) JitOp::Sqrt; }
uint32_t w_op_Abs() { return (uint32_t) JitOp::Abs; }
uint32_t w_op_Add() { return (uint32_t) JitOp::Add; }
uint32_t w_op_Sub() { return (uint32_t) JitOp::Sub; }
uint32_t w_op_Mul() { return (uint32_t) JitOp::Mul; }
uint32_t w_op_Div() { return (uint32_t) JitOp::Div; }
uint32_t w_op_Mod() { return (uint32_t) JitOp::Mod; }
uint32_t w_op_MulHi() { return (uint32_t) JitOp::MulHi; }
uint32_t w_op_MulWide() { return (uint32_t) JitOp::MulWide; }
uint32_t w_op_Fma() { return (uint32_t) JitOp::Fma; }
uint32_t w_op_Min() { return (uint32_t) JitOp::Min; }
uint32_t w_op_Max() { return (uint32_t) JitOp::Max; }
uint32_t w_op_FMin() { return (uint32_t) JitOp::FMin; }
uint32_t w_op_FMax() { return (uint32_t) JitOp::FMax; }
uint32_t w_op_Copysign() { return (uint32_t) JitOp::Copysign; }
uint32_t w_op_Ceil() { return (uint32_t) JitOp::Ceil; }
uint32_t w_op_Floor() { return (uint32_t) JitOp::Floor; }
uint32_t w_op_Round() { return (uint32_t) JitOp::Round; }
uint32_t w_op_Trunc() { return (uint32_t) JitOp::Trunc; }
uint32_t w_op_Eq() { return (uint32_t) JitOp::Eq; }
uint32_t w_op_Neq() { return (uint32_t) JitOp::Neq; }
uint32_t w_op_Lt() { return (uint32_t) JitOp::Lt; }
uint32_t w_op_Le() { return (uint32_t) JitOp::Le; }
uint32_t w_op_Gt() { return (uint32_t) JitOp::Gt; }
uint32_t w_op_Ge() { return (uint32_t) JitOp::Ge; }
uint32_t w_op_Select() { return (uint32_t) JitOp::Select; }
uint32_t w_op_Popc() { return (uint32_t) JitOp::Popc; }
uint32_t w_op_Clz() { return (uint32_t) JitOp::Clz; }
uint32_t w_op_Ctz() { return (uint32_t) JitOp::Ctz; }
uint32_t w_op_Brev() { return (uint32_t) JitOp::Brev; }
uint32_t w_op_And() { return (uint32_t) JitOp::And; }
uint32_t w_op_Or() { return (uint32_t) JitOp::Or; }
uint32_t w_op_Xor() { return (uint32_t) JitOp::Xor; }
uint32_t w_op_Shl() { return (uint32_t) JitOp::Shl; }
uint32_t w_op_Shr() { return (uint32_t) JitOp::Shr; }
uint32_t w_op_Rcp() { return (uint32_t) JitOp::Rcp; }
uint32_t w_op_Rsqrt() { return (uint32_t) JitOp::Rsqrt; }
uint32_t w_op_Sin() { return (uint32_t) JitOp::Sin; }
uint32_t w_op_Cos() { return (uint32_t) JitOp::Cos; }
uint32_t w_op_Exp2() { return (uint32_t) JitOp::Exp2; }
uint32_t w_op_Log2() { return (uint32_t) JitOp::Log2; }
uint32_t w_op_Tanh() { return (uint32_t) JitOp::Tanh; }
uint32_t w_flag_cp() { return (uint32_t) JitFlag::ConstantPropagation; }
uint32_t w_flag_fm() { return (uint32_t) JitFlag::FastMath; }
uint32_t w_field_kind(Variable *v) { return v->kind; }
uint32_t w_field_type(Variable *v) { return v->type; }
uint32_t w_field_backend(Variable *v) { return v->backend; }
uint32_t w_field_size(Variable *v) { return v->size; }
uint32_t w_field_symbolic(Variable *v) { return v->symbolic; }
uint64_t w_field_literal(Variable *v) { return v->literal; }
void w_set_consumed(Variable *v, uint32_t c) { v->consumed = c; }
}
