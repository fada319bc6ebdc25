"""Documented register addresses (Stella Programmer's Guide, Atari 7800 Software Guide, Channel F BIOS listings, M68HC11 Reference Manual, MC68HC908JK3 data sheet)."""


def seq(start, names, step=1):
    return {n: start + step * k for k, n in enumerate(names.split()) if n != "-"}


VCS_WRITE = seq(0, "VSYNC VBLANK WSYNC RSYNC NUSIZ0 NUSIZ1 COLUP0 COLUP1 COLUPF COLUBK CTRLPF REFP0 REFP1 PF0 PF1 PF2 "
                   "RESP0 RESP1 RESM0 RESM1 RESBL AUDC0 AUDC1 AUDF0 AUDF1 AUDV0 AUDV1 GRP0 GRP1 ENAM0 ENAM1 ENABL "
                   "HMP0 HMP1 HMM0 HMM1 HMBL VDELP0 VDELP1 VDELBL RESMP0 RESMP1 HMOVE HMCLR CXCLR")
VCS_READ = seq(0, "CXM0P CXM1P CXP0FB CXP1FB CXM0FB CXM1FB CXBLPF CXPPMM INPT0 INPT1 INPT2 INPT3 INPT4 INPT5")
RIOT = {**seq(0x280, "SWCHA SWACNT SWCHB SWBCNT INTIM TIMINT"), **seq(0x294, "TIM1T TIM8T TIM64T T1024T"), **seq(0x29c, "TIM1I TIM8I TIM64I T1024I")}

A7800 = {"INPTCTRL": 1, "VBLANK": 1, **seq(8, "INPT0 INPT1 INPT2 INPT3 INPT4 INPT5"), **seq(8, "INPT4B INPT4A INPT5B INPT5A"), **seq(8, "INPT4R INPT4L INPT5R INPT5L"),
         **seq(0x15, "AUDC0 AUDC1 AUDF0 AUDF1 AUDV0 AUDV1"),
         **seq(0x20, "BACKGRND P0C1 P0C2 P0C3 WSYNC P1C1 P1C2 P1C3 MSTAT P2C1 P2C2 P2C3 DPPH P3C1 P3C2 P3C3 DPPL P4C1 P4C2 P4C3 CHARBASE P5C1 P5C2 P5C3 OFFSET P6C1 P6C2 P6C3 CTRL P7C1 P7C2 P7C3"),
         "CHBASE": 0x34, **seq(0x280, "SWCHA SWACNT SWCHB SWBCNT INTIM"), "CTLSWA": 0x281, "CTLSWB": 0x283, **seq(0x294, "TIM1T TIM8T TIM64T T1024T"), "TIM64TI": 0x29e, "XCTRL": 0x470,
         **seq(0, "PAUDF0 PAUDC0 PAUDF1 PAUDC1 PAUDF2 PAUDC2 PAUDF3 PAUDC3 PAUDCTL - PRANDOM - - - - PSKCTL")}

CHF = {"BIOS_CLEAR_SCREEN": 0xd0, "BIOS_DELAY": 0x8f, "BIOS_PUSH_K": 0x107, "BIOS_POP_K": 0x11e, "BIOS_DRAW_CHARACTER": 0x679,
       "COLOR_RED": 0x40, "COLOR_BLUE": 0x80, "COLOR_GREEN": 0, "COLOR_BACKGROUND": 0xc0, "COLOUR_RED": 0x40, "COLOUR_BLUE": 0x80, "COLOUR_GREEN": 0, "COLOUR_BACKGROUND": 0xc0,
       "clrscrn": 0xd0, "delay": 0x8f, "pushk": 0x107, "popk": 0x11e, "drawchar": 0x679, "red": 0x40, "blue": 0x80, "green": 0, "bkg": 0xc0}

HC11 = {**seq(0, "PORTA - - PORTC PORTB - - DDRC PORTD DDRD PORTE CFORC OC1M OC1D TCNT"), **seq(0x10, "TIC1 TIC2 TIC3 TOC1 TOC2 TOC3 TOC4 TOC5", 2),
        **seq(0x20, "TCTL1 TCTL2 TMSK1 TFLG1 TMSK2 TFLG2 PACTL PACNT SPCR - - BAUD SCCR1 SCCR2 SCSR SCDR ADCTL ADR1 ADR2 ADR3 ADR4 BPROT - - - OPTION - EEPCTL HPRIO - - CONFIG")}
HC11_BITS = {"PA%d" % k: 1 << k for k in range(8)}
HC11_PARTS = {"68hc11a1": (0xb600, 512, 0xbf40, 256), "68hc11e1": (0xb600, 512, 0xbf00, 512), "68hc811e2": (0xf800, 2048, 0xbf40, 256)}

JK3 = {**seq(0, "PTA PTB PTC PTD DDRA DDRB DDRC DDRD"), "PDCR": 0xa, "PTAPUE": 0xd, "KBSCR": 0x1a, "KBIER": 0x1b, **seq(0x1d, "INTSCR CONFIG2 CONFIG"),
       **seq(0x20, "TSC TCNTH TCNTL TMODH TMODL TSC0 TCH0H TCH0L TSC1 TCH1H TCH1L"), "TCNT": 0x21, "TMOD": 0x23, "TCH0": 0x26, "TCH1": 0x29,
       **seq(0x3c, "ADSCR ADR ADICLK"), **seq(0xfe00, "BSR RSR - BFCR INT1 INT2 INT3 - FLCR FLBPR - - BRKH BRKL BRKSCR"), "COPCTL": 0xffff,
       "_vect_ADC": 0xffde, "_vect_KBIR": 0xffe0, **seq(0xfff2, "_vect_TIMOVF _vect_TIM1 _vect_TIM0 - _vect_IRQ _vect_SWI _vect_RESET", 2)}
HC908_BITS = {"PT%s%d" % (p, k): 1 << k for p in "ABCD" for k in range(8)}
HC908_BITS.update({"COPD": 1, "TOF": 128, "TOIE": 64, "TSTOP": 32, "TRST": 16, "PRS2": 4, "PRS1": 2, "PRS0": 1, "CH0F": 128, "CH0IE": 64, "MS0B": 32, "MS0A": 16, "ELS0B": 8, "ELS0A": 4,
                   "TOV0": 2, "CH0MAX": 1, "CH1F": 128, "CH1IE": 64, "MS1A": 16, "ELS1B": 8, "ELS1A": 4, "TOV1": 2, "CH1MAX": 1, "ACKI": 4, "IMASKI": 2, "MODEI": 1, "ACKK": 4, "IMASKK": 2,
                   "MODEK": 1, "PGM": 1, "ERASE": 2, "MASS": 4, "HVEN": 8})
HC908_PARTS = {"mc68hc908jk1": (0x80, 128, 0xf600, 1536), "mc68hc908jk3": (0x80, 128, 0xec00, 4096), "mc68hc908jb8": (0x40, 256, 0xdc00, 8192), "mc68hc908mr32": (0x60, 768, 0x8000, 32256)}
