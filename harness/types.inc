#ifdef VF_WIDE
TY(0) TY(1) TY(2) TY(3) TY(4)
#else
TY(0) TY(1) TY(2) TY(3) TY(4) TY(5) TY(6) TY(7) TY(8) TY(9) TY(10) TY(11) TY(12) TY(13) TY(14) TY(15) TY(16) TY(17) TY(18) TY(19) TY(20)
#endif
