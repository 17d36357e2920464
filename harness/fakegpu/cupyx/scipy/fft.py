from scipy.fft import *
