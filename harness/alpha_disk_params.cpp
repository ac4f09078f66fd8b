// AlphaDisk declares its parameters static and leaves their definition to the program; weak, so that a library that
// defines them itself still links
__attribute__((weak)) double alpha_q asm("_ZN3hub5force9AlphaDisk1QE") = 1;
__attribute__((weak)) double alpha_a asm("_ZN3hub5force9AlphaDisk5alphaE") = 0.1;
__attribute__((weak)) double alpha_l asm("_ZN3hub5force9AlphaDisk6lambdaE") = 1;
__attribute__((weak)) int alpha_f asm("_ZN3hub5force9AlphaDisk5forceE") = 0;
