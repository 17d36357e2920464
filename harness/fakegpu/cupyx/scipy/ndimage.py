from scipy.ndimage import *
