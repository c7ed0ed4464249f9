import subprocess
log=dict(reversed(l.split(' ',1)) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).strip().split('\n'))
M=[('P04','AVX2 RGB u8 horizontal','RGB u8, AVX2: the odd last tap was read from the wrong pixel'),
('P04','SSE u8 vertical pass scales','u8 vertical pass on SSE: sums of 32-wide blocks were packed without the shift, results saturated'),
('P04','scalar fixed point vertical','scalar fixed-point vertical pass truncated instead of rounding'),
('P07','jinc based kernels','jinc kernels evaluated 0/0 at the centre tap: NaN weights'),
('P07','a destination pixel whose kernel weights vanish','kernels whose taps all fall on zeros left a zero pixel (weights not normalised)'),
('P11','AVX2 RGBA u8 horizontal pass weighs','RGBA u8, AVX2: alpha of the fifth tap used another weight (also P04)'),
('P01','AVX2 RGBA u8 horizontal pass is only','AVX2 code was called on CPUs without AVX2'),
('P02','a store whose stride is zero','stride 0, documented as tight, was rejected'),
('P02','a stride times height','stride*height wrapped around: a tiny buffer passed validation and was read out of bounds'),
('P21','store constructors reject','width*height*channels wrapped around in the constructors'),
('P21','copies of a padded store keep','copied(), to_immutable of a padded store lost the stride'),
('P21','copying into a padded store','copied_to_mut overwrote padding / misplaced rows'),
('P09','nearest sampling honours','Nearest ignored strides'),
('P13','nearest sampling takes','Nearest took a neighbouring pixel for some sample positions'),
('P09','vertical only resize of packed','AR30 vertical-only resize used the source stride for the destination'),
('P03','same size copy of packed','AR30 same-size copy ignored strides'),
('P10','colours that were not premultiplied','colours of images that needed no premultiplication were divided by alpha'),
('P20','adaptive thread count','adaptive thread count wrapped around for huge sizes'),
('P05','u16 vertical passes resume','u16 vertical passes recomputed from the start of the last block: wrong columns'),
('P05','SSE u16 RGBA single row','SSE RGBA u16 single-row pass used one pixel for both taps of a pair'),
('P06','SSE f32 plane single row','SSE f32 plane single-row pass skipped taps'),
('P05','scalar floating point passes round','scalar float passes rounded up (ceil)'),
('P05','SSE u16 vertical pass rounds the last','SSE u16 vertical tail columns rounded up (ceil)'),
('P11','scalar alpha premultiplication leaves','scalar u8/u16 premultiplication multiplied alpha by itself'),
('P11','scalar u8 unpremultiplication','scalar u8 unpremultiply table rows overlapped and wrapped above 255'),
('P11','scalar u16 alpha handling','scalar u16 alpha handling truncated, exceeded the bit depth, 12-bit branch never taken'),
('P14','SSE u16 unpremultiplication stays','SSE u16 unpremultiply used the global thread pool under the single-threaded policy'),
('P11','SIMD u16 premultiplication multiplies','SIMD u16 premultiply multiplied 16-bit values as signed'),
('P11','SIMD u16 alpha scaling','SIMD u16 alpha scaling rounded twice, saturated at 32767 (SSE), exceeded the bit depth'),
('P10','SIMD u16 unpremultiplication divides','SIMD u16 unpremultiply used a 12-bit reciprocal: opaque 16-bit images changed by up to 24 levels'),
('P11','AVX2 u8 alpha premultiplication','AVX2 u8 premultiply multiplied alpha by itself'),
('P02','the stride of a store without one','stride() multiplied width by channels without care: absurd widths panicked instead of being rejected'),
('P21','store constructors do not overflow','constructors panicked computing the stride of images without rows and absurd widths'),
('P16','AR30 single row pass sums all taps','scalar AR30 single-row pass kept only some taps'),
('P16','SSE AR30 single row pass uses the precision','SSE AR30 single-row pass shifted by the wrong precision'),
('P16','SSE AR30 single row pass clamps','SSE AR30 single-row pass let a channel overflow into its neighbour'),
('P16','SSE AR30 row pass pairs eight','SSE AR30 four-row pass paired pixels of an eight-tap block with the wrong weights'),
('P16','SSE AR30 row pass pairs four','SSE AR30 four-row pass paired pixels of a four-tap block with the wrong weights'),
('P22','colour space scalers honour the strides','colour space scalers took padded rows for tight ones'),
('P22','LinearScaler uses its transfer','LinearScaler ignored its transfer function for RGBA'),
('P23','half-float conversion without F16C','SSE conversion to half floats dropped the sign'),
('P23','SIMD half-float unpremultiply','SIMD half-float unpremultiply multiplied by alpha'),
('P23','portable half-float horizontal','portable half-float horizontal pass zeroed the destination row padding'),
('P26','AVX-512 premultiply keeps alpha','AVX-512 premultiply of RGBA u8 multiplied alpha by itself'),
('P26','AVX-512 constant-alpha check','AVX-512 constant-alpha check ignored the last width mod 16 pixels of each row'),
('P27','sampling window lies around','the sampling window was half a pixel to the left: up-scaling Bilinear took one pixel where it needs two'),
('P26','VNNI single-row 8-bit pass','VNNI single-row RGBA u8 pass truncated results of up to four taps'),
]
out=[]
s=open('/verif/KNOWN_FINDINGS.txt').read()
keep=[l for l in s.split('\n') if l and not l.startswith('fixed:')]
used=set()
for pid,key,what in M:
    c=[(m,h) for m,h in log.items() if key in m]
    assert len(c)==1,(key,c)
    used.add(c[0][1])
    keep.append('fixed: property=%s %s %s'%(pid,c[0][1],what))
for m,h in log.items():
    if h not in used and m.startswith('fix'): print('unrecorded',h,m)
open('/verif/KNOWN_FINDINGS.txt','w').write('\n'.join(keep)+'\n')
