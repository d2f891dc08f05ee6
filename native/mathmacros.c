/* one function per macro of the vector/matrix/quaternion headers: the macro text is expanded from /repo's headers on every run */
#include "trick/vector_macros.h"
#include "trick/matrix_macros.h"
#include "trick/quat_macros.h"
typedef double V[3]; typedef double (*MT)[3];
void m_V_INIT(double *a) { V_INIT(a); }
void m_V_STORE(double *a, double s) { V_STORE(a, s); }
void m_V_COPY(double *a, double *b) { V_COPY(a, b); }
void m_V_ADD(double *o, double *a, double *b) { V_ADD(o, a, b); }
void m_V_SUB(double *o, double *a, double *b) { V_SUB(o, a, b); }
void m_V_SCALE(double *o, double *a, double s) { V_SCALE(o, a, s); }
double m_V_MAG(double *a) { return V_MAG(a); }
void m_V_NORM(double *o, double *a) { V_NORM(o, a); }
void m_V_SKEW(MT o, double *a) { V_SKEW(o, a); }
double m_V_DOT(double *a, double *b) { return V_DOT(a, b); }
void m_V_OUTER(MT o, double *a) { V_OUTER(o, a); }
void m_V_CROSS(double *o, double *a, double *b) { V_CROSS(o, a, b); }
void m_VxV_ADD(double *o, double *a, double *b) { VxV_ADD(o, a, b); }
void m_VxV_SUB(double *o, double *a, double *b) { VxV_SUB(o, a, b); }
void m_VxM(double *o, double *a, MT m) { VxM(o, a, m); }
void m_V_ADD3(double *o, double *a, double *b, double *c) { V_ADD3(o, a, b, c); }
void m_V_DECR(double *o, double *a) { V_DECR(o, a); }
void m_V_INCR(double *o, double *a) { V_INCR(o, a); }
void m_V_NEGATE(double *o, double *a) { V_NEGATE(o, a); }
void m_VxS_ADD(double *o, double *a, double s) { VxS_ADD(o, a, s); }
void m_VxS_SUB(double *o, double *a, double s) { VxS_SUB(o, a, s); }
void m_V_ZERO_SMALL(double *o, double s) { V_ZERO_SMALL(o, s); }
void m_M_INIT(MT o) { M_INIT(o); }
void m_M_IDENT(MT o) { M_IDENT(o); }
void m_M_COPY(MT o, MT a) { M_COPY(o, a); }
void m_M_TRANS(MT o, MT a) { M_TRANS(o, a); }
void m_M_ADD(MT o, MT a, MT b) { M_ADD(o, a, b); }
void m_M_SUB(MT o, MT a, MT b) { M_SUB(o, a, b); }
void m_MxV(double *o, MT a, double *b) { MxV(o, a, b); }
void m_MtxV(double *o, MT a, double *b) { MtxV(o, a, b); }
void m_MxSCALAR(MT o, MT a, double s) { MxSCALAR(o, a, s); }
void m_MxM(MT o, MT a, MT b) { MxM(o, a, b); }
void m_MtxM(MT o, MT a, MT b) { MtxM(o, a, b); }
void m_MxMt(MT o, MT a, MT b) { MxMt(o, a, b); }
void m_MtxMt(MT o, MT a, MT b) { MtxMt(o, a, b); }
void m_MxMxV(double *o, MT a, MT b, double *v) { MxMxV(o, a, b, v); }
void m_Q_IDENT(double *o) { Q_IDENT(o); }
void m_Q_COPY(double *o, double *a) { Q_COPY(o, a); }
void m_Q_SCALE(double *o, double *a, double s) { Q_SCALE(o, a, s); }
void m_Q_TRANS(double *o, double *a) { Q_TRANS(o, a); }
void m_QxQ(double *o, double *a, double *b) { QxQ(o, a, b); }
void m_QtxQ(double *o, double *a, double *b) { QtxQ(o, a, b); }
void m_QxQt(double *o, double *a, double *b) { QxQt(o, a, b); }
void m_VxQ(double *o, double *a, double *b) { VxQ(o, a, b); }
void m_QxV(double *o, double *a, double *b) { QxV(o, a, b); }
void m_Q_dot(double *o, double *a, double *b) { Q_dot(o, a, b); }
