From 7bf484a1278304ec7b83b03bd8f7e529e3d08ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 01/23] fix: AsynchronousTask::awaitTask must not return on a
 spurious condition wakeup

The wait on m_done was not guarded by its predicate, so a wakeup without
a signal (which POSIX permits) made awaitTask return before, or during,
performTask.
---
 thread/AsynchronousTask.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/AsynchronousTask.h b/thread/AsynchronousTask.h
index e34bec0..7889209 100644
--- a/thread/AsynchronousTask.h
+++ b/thread/AsynchronousTask.h
@@ -70,7 +70,7 @@ protected:
         m_todo.unlock();
     }
     void awaitTask() {
-        m_done.wait();
+        while (m_inTask) m_done.wait();
         m_done.unlock();
     }
 
-- 
2.43.0


From b84f32cdb2672a9c324ba9f61023e6ad1487003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:35 +0000
Subject: [PATCH 02/23] fix: Condition::wait must normalise a deadline that
 falls on a whole second

tv_usec of exactly 1000000 was left alone, giving tv_nsec of 10^9:
pthread_cond_timedwait then fails with EINVAL, i.e. wait returned at once.
---
 thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/Thread.cpp b/thread/Thread.cpp
index 54820a0..8ad201a 100644
--- a/thread/Thread.cpp
+++ b/thread/Thread.cpp
@@ -510,7 +510,7 @@ Condition::wait(int us)
         gettimeofday(&now, 0);
 
         now.tv_usec += us;
-        while (now.tv_usec > 1000000) {
+        while (now.tv_usec >= 1000000) {
             now.tv_usec -= 1000000;
             ++now.tv_sec;
         }
-- 
2.43.0


From 6e39c42cbcb7896a50c671b72b20d1da37933118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 03/23] fix: BlockAllocator must not free its blocks' memory
 when its block list grows

Block owned its memory through its destructor but was copied bitwise when
the vector of blocks was reallocated (beyond 1024 blocks), so live
elements were freed under the user. Also include <vector>.
---
 thread/BlockAllocator.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/thread/BlockAllocator.h b/thread/BlockAllocator.h
index 6b4c9f5..e08db43 100644
--- a/thread/BlockAllocator.h
+++ b/thread/BlockAllocator.h
@@ -35,6 +35,7 @@ THE SOFTWARE.
 #define QM_DSP_BLOCK_ALLOCATOR_H
 
 #include <cstdlib>
+#include <vector>
 
 /**
  * BlockAllocator is a simple allocator for fixed-size (usually small)
@@ -118,10 +119,6 @@ private:
             m_end(0)
         {}
 
-        ~Block() {
-            delete[] m_block;
-        }
-
         bool isFull() const {
             return m_allocated == m_a->elementsPerBlock();
         }
@@ -179,6 +176,12 @@ private:
         Blocks() {
             data.reserve(1024);
         }
+
+        // Block is copied when data grows, so the memory a Block
+        // refers to is released here and not in a Block destructor
+        ~Blocks() {
+            for (data_t i = 0; i < data.size(); ++i) data[i].clear();
+        }
     };
 
     const int m_sz;
-- 
2.43.0


From 9f52af25054d8d626705d49c69b64d782ae03742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 04/23] fix: Filter with denominator of order zero must have
 room for its output history

---
 dsp/signalconditioning/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Filter.cpp b/dsp/signalconditioning/Filter.cpp
index b737860..98c510c 100644
--- a/dsp/signalconditioning/Filter.cpp
+++ b/dsp/signalconditioning/Filter.cpp
@@ -50,7 +50,7 @@ Filter::Filter(Parameters params)
     m_offb = m_offmax;
 
     if (!m_fir) {
-        m_bufa.resize(m_order + m_offmax);
+        m_bufa.resize(m_sz + m_offmax);
     }
 
     m_bufb.resize(m_sz + m_offmax);
-- 
2.43.0


From 1194f52df5e819407acba0e73e792d7d34f25d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 05/23] fix: FiltFilt must start each call from a clear filter
 state

---
 dsp/signalconditioning/FiltFilt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/FiltFilt.cpp b/dsp/signalconditioning/FiltFilt.cpp
index 3f011ca..6a3daad 100644
--- a/dsp/signalconditioning/FiltFilt.cpp
+++ b/dsp/signalconditioning/FiltFilt.cpp
@@ -70,7 +70,8 @@ void FiltFilt::process(const double *const QM_R__ src,
     }
     
     ////////////////////////////////
-    // Do 0Ph filtering
+    // Do 0Ph filtering, regardless of any previous calls
+    m_filter.reset();
     m_filter.process(filtScratchIn, filtScratchOut, nExt);
         
     // reverse the series for FILTFILT 
-- 
2.43.0


From 59372403c1e6a1345be95d82bc9dc8de9569f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 06/23] fix: Framer::getFrame must not write outside the frame
 once past the end of its source

---
 dsp/signalconditioning/Framer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Framer.cpp b/dsp/signalconditioning/Framer.cpp
index 5281046..6d4fab3 100644
--- a/dsp/signalconditioning/Framer.cpp
+++ b/dsp/signalconditioning/Framer.cpp
@@ -61,7 +61,10 @@ void Framer::getFrame(double *dst)
 
     } else { // m_srcIndex is within m_frameLength of m_sampleLen
 
-        int rem = int(m_sampleLen - m_srcIndex);
+        int rem = 0;
+        if (m_srcIndex < m_sampleLen) {
+            rem = int(m_sampleLen - m_srcIndex);
+        }
         int zero = m_frameLength - rem;
 
         for (int i = 0; i < rem; i++) {
-- 
2.43.0


From ef6778a38d69020c0bd9bca7066479dd5617e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 07/23] fix: DFProcess must not read beyond a detection
 function shorter than its median window

---
 dsp/signalconditioning/DFProcess.cpp | 50 +++++-----------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index 996eb1e..7a80dc8 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -96,8 +96,7 @@ void DFProcess::process(double *src, double* dst)
 
 void DFProcess::medianFilter(double *src, double *dst)
 {
-    int i,k,j,l;
-    int index = 0;
+    int i,j,l;
 
     double val = 0;
 
@@ -106,53 +105,20 @@ void DFProcess::medianFilter(double *src, double *dst)
 
     double* scratch = new double[ m_length ];
 
-    for( i = 0; i < m_winPre; i++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-
-        k = i + m_winPost + 1;
+    for( i = 0; i < m_length; i++) {
 
-        for( j = 0; j < k; j++) {
-            y[ j ] = src[ j ];
-        }
-        scratch[ index ] = MathUtilities::median( y, k );
-        index++;
-    }
+        // the median is of that part of the window around i which
+        // lies within the data
+        int first = std::max( i - m_winPre, 0 );
+        int last = std::min( i + m_winPost, m_length - 1 );
 
-    for(  i = 0; i + m_winPost + m_winPre < m_length; i ++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-                         
         l = 0;
-        for(  j  = i; j < ( i + m_winPost + m_winPre + 1); j++) {
+        for( j = first; j <= last; j++) {
             y[ l ] = src[ j ];
             l++;
         }
 
-        scratch[index] = MathUtilities::median( y, (m_winPost + m_winPre + 1 ));
-        index++;
-    }
-
-    for( i = std::max( m_length - m_winPost, 1); i < m_length; i++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-
-        k = std::max( i - m_winPre, 1);
-
-        l = 0;
-        for( j = k; j < m_length; j++) {
-            y[ l ] = src[ j ];
-            l++;
-        }
-                
-        scratch[index] = MathUtilities::median( y, l);
-        index++;
+        scratch[ i ] = MathUtilities::median( y, l );
     }
 
     for( i = 0; i < m_length; i++ ) {
-- 
2.43.0


From 368dc332dc4657e6a92892f6b098e3c52f24e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 08/23] fix: TempoTrackV2::calculateBeats must not read before
 a detection function shorter than one beat period

---
 dsp/tempotracking/TempoTrackV2.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrackV2.cpp b/dsp/tempotracking/TempoTrackV2.cpp
index 72812b2..c632e0d 100644
--- a/dsp/tempotracking/TempoTrackV2.cpp
+++ b/dsp/tempotracking/TempoTrackV2.cpp
@@ -464,13 +464,15 @@ TempoTrackV2::calculateBeats(const vector<double> &df,
     }
 
     // STARTING POINT, I.E. LAST BEAT.. PICK A STRONG POINT IN cumscore VECTOR
+    int tailstart = df_len - beat_period[beat_period.size()-1] ;
+    if (tailstart < 0) tailstart = 0; // input shorter than one beat period
+
     d_vec_t tmp_vec;
-    for (int i = df_len - beat_period[beat_period.size()-1] ; i < df_len; i++) {
+    for (int i = tailstart; i < df_len; i++) {
         tmp_vec.push_back(cumscore[i]);
     }
 
-    int startpoint = get_max_ind(tmp_vec) +
-        df_len - beat_period[beat_period.size()-1] ;
+    int startpoint = get_max_ind(tmp_vec) + tailstart;
 
     // can happen if no results obtained earlier (e.g. input too short)
     if (startpoint >= int(backlink.size())) {
-- 
2.43.0


From 8c66867bcf67e4e19d32390847ee422eaf31c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 09/23] fix: TempoTrack::process must start each call from the
 beginning of its input

---
 dsp/tempotracking/TempoTrack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index ac0aadb..12b4338 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -651,6 +651,7 @@ vector<int> TempoTrack::process( vector <double> DF,
     for(int clear = 0; clear < m_lagLength; clear++){ PW[ clear ] = 0.0;}
 
     m_DFFramer.setSource( &causalDF[0], m_dataLength );
+    m_DFFramer.resetCounters();
 
     int TTFrames = m_DFFramer.getMaxNoFrames();
 
-- 
2.43.0


From 316c0471a33f778d2e8ab4f31dba79227efb5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 10/23] fix: TempoTrack must not read beyond its
 autocorrelation for periods near the ends of its range

---
 dsp/tempotracking/TempoTrack.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 12b4338..f115617 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -335,7 +335,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = ( 4 * maxIndexRCF + 3) - 3; i < ( 4 * maxIndexRCF + 3) + 4; i++ ) {
+        for( i = ( 4 * maxIndexRCF + 3) - 3; i < ( 4 * maxIndexRCF + 3) + 4 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -439,14 +439,14 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
     double* dbf = new double[ len ]; int t = 0;
     for( int u = 0; u < len; u++ ){ dbf[ u ] = 0.0; }
 
-    if( (double)len < 6 * p + 2 ) {
+    if( len <= 6 * p + 2 ) {
         
         for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1; i++ ) {
             temp3A += ACF[ i ];
             dbf[ t++ ] = ACF[ i ];
         }
         
-        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1; i++ ) {
+        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1 && i < len; i++ ) {
             temp4A += ACF[ i ];
         }
 
-- 
2.43.0


From 91967eff16b1526d43c72907c69c24555c835472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 11/23] fix: interleaved ConstantQ::process must read the same
 bins as the split form and stay within its result

---
 dsp/chromagram/ConstantQ.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index d268756..a6d20c2 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -168,7 +168,6 @@ double* ConstantQ::process( const double* fftdata )
 
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
-        m_CQdata[ row+1 ] = 0;
     }
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
@@ -182,8 +181,8 @@ double* ConstantQ::process( const double* fftdata )
         if (col == 0) continue;
         const double & r1 = real[i];
         const double & i1 = imag[i];
-        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col - 2 ];
-        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col - 2 + 1 ];
+        const double & r2 = fftdata[ 2*(m_FFTLength - col) ];
+        const double & i2 = fftdata[ 2*(m_FFTLength - col) + 1 ];
         // add the multiplication
         m_CQdata[ 2*row  ] += (r1*r2 - i1*i2);
         m_CQdata[ 2*row+1] += (r1*i2 + i1*r2);
-- 
2.43.0


From 1a0f1d80af9656398bf8ad4255716654b6962a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 12/23] fix: TCSGram must not compute times from an
 uninitialised frame duration

---
 dsp/tonal/TCSgram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/tonal/TCSgram.cpp b/dsp/tonal/TCSgram.cpp
index 4806096..e681841 100644
--- a/dsp/tonal/TCSgram.cpp
+++ b/dsp/tonal/TCSgram.cpp
@@ -23,7 +23,8 @@
 #include "maths/MathUtilities.h"
 
 TCSGram::TCSGram() :
-    m_uNumBins(6)
+    m_uNumBins(6),
+    m_dFrameDurationMS(0.0)
 {
 }
 
-- 
2.43.0


From fbd8b14f0a7a7b891580fbc8cad348e02446584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 13/23] fix: constq_segment must not ask for more principal
 components than there are coefficients

---
 dsp/segmentation/cluster_segmenter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/segmentation/cluster_segmenter.c b/dsp/segmentation/cluster_segmenter.c
index 1b3e591..2e7a706 100644
--- a/dsp/segmentation/cluster_segmenter.c
+++ b/dsp/segmentation/cluster_segmenter.c
@@ -214,6 +214,9 @@ void constq_segment(int* q, double** features, int frames_read, int bins, int nc
 
         /* do PCA on the features (but not the envelope) */
         int ncomponents = 20;
+        if (ncomponents > ncoeff) {
+            ncomponents = ncoeff;       /* no more components than coefficients */
+        }
         pca_project(features, frames_read, ncoeff, ncomponents);
                 
         /* copy the envelope so that it immediatly follows the chosen components */
-- 
2.43.0


From e78d9b564b7e80bdc538a7232655cbaf55c7ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:36 +0000
Subject: [PATCH 14/23] fix: a Kaiser window of length 1 must be 1, not a
 division of zero by zero

---
 base/KaiserWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/KaiserWindow.cpp b/base/KaiserWindow.cpp
index 306b6aa..93d351e 100644
--- a/base/KaiserWindow.cpp
+++ b/base/KaiserWindow.cpp
@@ -56,7 +56,7 @@ KaiserWindow::init()
     double denominator = bessel0(m_beta);
     bool even = (m_length % 2 == 0);
     for (int i = 0; i < (even ? m_length/2 : (m_length+1)/2); ++i) {
-        double k = double(2*i) / double(m_length-1) - 1.0;
+        double k = (m_length > 1 ? double(2*i) / double(m_length-1) - 1.0 : 0.0);
         m_window.push_back(bessel0(m_beta * sqrt(1.0 - k*k)) / denominator);
     }
     for (int i = 0; i < (even ? m_length/2 : (m_length-1)/2); ++i) {
-- 
2.43.0


From f733887175fdae28cf1de05966b8ed8db6471ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:21 +0000
Subject: [PATCH 15/23] fix: project onto the principal components of largest
 variance

The QL algorithm returns eigenvalues in no certain order, so taking the
last columns as the leading components could drop all of the variance.
---
 maths/pca/pca.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index fa8d1de..d33137d 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -248,6 +248,29 @@ void tqli(double* d, double* e, int n, double** z)
     }
 }
 
+/* Sort eigenvalues into ascending order, and the eigenvectors (columns
+   of z) with them: the QL algorithm returns them in no certain order. */
+static void eigsrt(double* d, double** z, int n)
+{
+    int i, j, k;
+    double t;
+
+    for (i = 0; i < n-1; i++)
+    {
+        k = i;
+        for (j = i+1; j < n; j++)
+            if (d[j] < d[k]) k = j;
+        if (k != i)
+        {
+            t = d[k]; d[k] = d[i]; d[i] = t;
+            for (j = 0; j < n; j++)
+            {
+                t = z[j][k]; z[j][k] = z[j][i]; z[j][i] = t;
+            }
+        }
+    }
+}
+
 /* In place projection onto basis vectors */
 void pca_project(double** data, int n, int m, int ncomponents)
 {
@@ -277,6 +300,7 @@ void pca_project(double** data, int n, int m, int ncomponents)
     //}
     tred2(symmat, m, evals, interm);  /* Triangular decomposition */
     tqli(evals, interm, m, symmat);   /* Reduction of sym. trid. matrix */
+    eigsrt(evals, symmat, m);         /* Largest eigenvalue last */
 /* evals now contains the eigenvalues,
    columns of symmat now contain the associated eigenvectors. */   
 
-- 
2.43.0


From cdf6d6332d8aa02a2fdcd741cf4f6e2ba3b22c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:29 +0000
Subject: [PATCH 16/23] fix: hmm_close must free the initial state distribution
 too

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index e00e829..18ed1e3 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -137,6 +137,7 @@ void hmm_close(model_t* model)
         free(model->cov[i]);
     }
     free(model->cov);         
+    free(model->p0);
     free(model);    
 }
 
-- 
2.43.0


From 0e54f014885037d448cab13600d8a0fe9a8f9c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:29 +0000
Subject: [PATCH 17/23] fix: invert must free the pivot indices it allocates

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index 18ed1e3..28d9bd0 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -609,6 +609,7 @@ void invert(double** cov, int L, double** icov, double* detcov)
 #ifndef HAVE_ATLAS	
     free(work);
 #endif
+    free(ipiv);
     free(a);	
 }
 
-- 
2.43.0


From 45f94adbaef1a0467d043b9572e0ba0b51a3c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:29 +0000
Subject: [PATCH 18/23] fix: release the segmenter's MFCC, and what it held
 when initialised again

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 6fbb3b5..c6b9f32 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -51,6 +51,16 @@ void ClusterMeltSegmenter::initialise(int fs)
 {
     samplerate = fs;
 
+    // may be initialised again, for another sample rate
+    delete constq;
+    constq = 0;
+    delete mfcc;
+    mfcc = 0;
+    delete decimator;
+    decimator = 0;
+    delete fft;
+    fft = 0;
+
     if (featureType == FEATURE_TYPE_CONSTQ ||
         featureType == FEATURE_TYPE_CHROMA) {
         
@@ -116,6 +126,7 @@ ClusterMeltSegmenter::~ClusterMeltSegmenter()
 {
     delete window;
     delete constq;
+    delete mfcc;
     delete decimator;
     delete fft;
 }
-- 
2.43.0


From fc40421242d186d237faf04f7db817dee00e1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:05 +0000
Subject: [PATCH 19/23] fix: release the previous coefficients when assigning a
 Window

---
 base/Window.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/Window.h b/base/Window.h
index 8c32753..e5970cf 100644
--- a/base/Window.h
+++ b/base/Window.h
@@ -53,6 +53,7 @@ public:
         if (&w == this) return *this;
         m_type = w.m_type;
         m_size = w.m_size;
+        delete[] m_cache;
         encache();
         return *this;
     }
-- 
2.43.0


From c70251656f37e23a709f2840b1ad86354536acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:05 +0000
Subject: [PATCH 20/23] fix: release the previous kernel when calculating
 ConstantQ's sparse kernel again

---
 dsp/chromagram/ConstantQ.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index a6d20c2..5be6575 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -123,6 +123,7 @@ void ConstantQ::sparsekernel()
     delete [] transfWindowRe;
     delete [] transfWindowIm;
 
+    delete m_sparseKernel;
     m_sparseKernel = sk;
 }
 
-- 
2.43.0


From b6437f67d1ce1f944cd4c312b79844095cbb1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:24 +0000
Subject: [PATCH 21/23] fix: findMeter must release its scratch array

---
 dsp/tempotracking/TempoTrack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index f115617..e6a7e1b 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -481,6 +481,8 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
         tsig = 4;
     }
 
+    delete[] dbf;
+
     return tsig;
 }
 
-- 
2.43.0


From e6b4cdbdf8fbae2bdd0b8e32d9fc24448c8392ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:33 +0000
Subject: [PATCH 22/23] fix: no static working variables in the bundled LAPACK,
 which HMMs in different threads would overwrite

---
 ext/cblas/src/dlamch.c   | 36 ++++++++++++++++++------------------
 ext/clapack/src/ilaenv.c | 14 +++++++-------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/ext/cblas/src/dlamch.c b/ext/cblas/src/dlamch.c
index 1243e82..744f193 100644
--- a/ext/cblas/src/dlamch.c
+++ b/ext/cblas/src/dlamch.c
@@ -22,7 +22,7 @@ doublereal dlamch_(char *cmach)
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
+    logical first = TRUE_;
 
     /* System generated locals */
     integer i__1;
@@ -32,18 +32,18 @@ doublereal dlamch_(char *cmach)
     double pow_di(doublereal *, integer *);
 
     /* Local variables */
-    static doublereal t;
+    doublereal t;
     integer it;
-    static doublereal rnd, eps, base;
+    doublereal rnd, eps, base;
     integer beta;
-    static doublereal emin, prec, emax;
+    doublereal emin, prec, emax;
     integer imin, imax;
     logical lrnd;
-    static doublereal rmin, rmax;
+    doublereal rmin, rmax;
     doublereal rmach;
     extern logical lsame_(char *, char *);
     doublereal small;
-    static doublereal sfmin;
+    doublereal sfmin;
     extern /* Subroutine */ int dlamc2_(integer *, integer *, logical *, 
 	    doublereal *, integer *, doublereal *, integer *, doublereal *);
 
@@ -170,20 +170,20 @@ doublereal dlamch_(char *cmach)
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
+    logical first = TRUE_;
 
     /* System generated locals */
     doublereal d__1, d__2;
 
     /* Local variables */
     doublereal a, b, c__, f, t1, t2;
-    static integer lt;
+    integer lt;
     doublereal one, qtr;
-    static logical lrnd;
-    static integer lbeta;
+    logical lrnd;
+    integer lbeta;
     doublereal savec;
     extern doublereal dlamc3_(doublereal *, doublereal *);
-    static logical lieee1;
+    logical lieee1;
 
 
 /*  -- LAPACK auxiliary routine (version 3.2) -- */
@@ -378,8 +378,8 @@ L30:
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
-    static logical iwarn = FALSE_;
+    logical first = TRUE_;
+    logical iwarn = FALSE_;
 
     /* Format strings */
     static char fmt_9999[] = "(//\002 WARNING. The value EMIN may be incorre"
@@ -399,21 +399,21 @@ L30:
     /* Local variables */
     doublereal a, b, c__;
     integer i__;
-    static integer lt;
+    integer lt;
     doublereal one, two;
     logical ieee;
     doublereal half;
     logical lrnd;
-    static doublereal leps;
+    doublereal leps;
     doublereal zero;
-    static integer lbeta;
+    integer lbeta;
     doublereal rbase;
-    static integer lemin, lemax;
+    integer lemin, lemax;
     integer gnmin;
     doublereal small;
     integer gpmin;
     doublereal third;
-    static doublereal lrmin, lrmax;
+    doublereal lrmin, lrmax;
     doublereal sixth;
     extern /* Subroutine */ int dlamc1_(integer *, integer *, logical *, 
 	    logical *);
diff --git a/ext/clapack/src/ilaenv.c b/ext/clapack/src/ilaenv.c
index 425f141..38ff960 100644
--- a/ext/clapack/src/ilaenv.c
+++ b/ext/clapack/src/ilaenv.c
@@ -19,14 +19,14 @@ integer ilaenv_(integer *ispec, char *name__, char *opts, integer *n1,
     integer s_cmp(char *, char *, ftnlen, ftnlen);
 
     /* Local variables */
-    static integer i__;
-    static char c1[1], c2[2], c3[3], c4[2];
-    static integer ic, nb, iz, nx;
-    static logical cname;
-    static integer nbmin;
-    static logical sname;
+    integer i__;
+    char c1[1], c2[2], c3[3], c4[2];
+    integer ic, nb, iz, nx;
+    logical cname;
+    integer nbmin;
+    logical sname;
     extern integer ieeeck_(integer *, real *, real *);
-    static char subnam[6];
+    char subnam[6];
     extern integer iparmq_(integer *, char *, char *, integer *, integer *, 
 	    integer *, integer *);
 
-- 
2.43.0


From cb3c1466d94e7bfef9cc84ec03c0d3c0189adf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:12 +0000
Subject: [PATCH 23/23] fix: clear what DCT::inverse left in the working buffer
 before a forward transform

---
 dsp/transforms/DCT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/transforms/DCT.cpp b/dsp/transforms/DCT.cpp
index 1ce1abe..1a860a7 100644
--- a/dsp/transforms/DCT.cpp
+++ b/dsp/transforms/DCT.cpp
@@ -35,6 +35,10 @@ DCT::~DCT()
 void
 DCT::forward(const double *in, double *out)
 {
+    // inverse() leaves all of m_time2 written
+    for (int i = 0; i < m_n * 2; ++i) {
+        m_time2[i*2] = 0.0;
+    }
     for (int i = 0; i < m_n; ++i) {
         m_time2[i*2 + 1] = in[i];
         m_time2[m_n*4 - i*2 - 1] = in[i];
-- 
2.43.0

