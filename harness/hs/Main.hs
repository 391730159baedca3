{-# LANGUAGE ForeignFunctionInterface #-}
-- Driver of C26: the harness (C++) chooses the calls, this calls the bindings.
module Main (main) where

import Control.Exception (SomeException, evaluate, try, displayException)
import Control.Monad (forM_)
import Data.Int (Int32, Int64)
import qualified Data.Text as T
import qualified Data.Vector.Storable as V
import Data.Word (Word8, Word32)
import Foreign
import Foreign.C.String
import Foreign.C.Types
import GHC.IO.Encoding (setForeignEncoding, setFileSystemEncoding, char8)
import System.Environment (getArgs, getProgName)
import System.Mem (performMajorGC)

import qualified FlatCV as F

foreign import ccall safe "harness_main" c_main :: CInt -> Ptr CString -> IO CInt
foreign import ccall unsafe "hs_w" c_w :: IO Int64
foreign import ccall unsafe "hs_h" c_h :: IO Int64
foreign import ccall unsafe "hs_ch" c_ch :: IO Int64
foreign import ccall unsafe "hs_q" c_q :: CInt -> IO Int64
foreign import ccall unsafe "hs_p" c_p :: CInt -> IO Double
foreign import ccall unsafe "hs_s" c_s :: CInt -> IO CString
foreign import ccall unsafe "hs_path" c_path :: IO CString
foreign import ccall unsafe "hs_npts" c_npts :: IO Int64
foreign import ccall unsafe "hs_pt" c_pt :: CInt -> CInt -> IO Double
foreign import ccall unsafe "hs_data" c_data :: IO (Ptr Word8)
foreign import ccall unsafe "hs_len" c_len :: IO Int64
foreign import ccall unsafe "hs_offset" c_offset :: IO Int64
foreign import ccall unsafe "hs_reflen" c_reflen :: IO Int64
foreign import ccall unsafe "hs_value" c_value :: Double -> IO ()
foreign import ccall unsafe "hs_size" c_size :: Int64 -> Int64 -> IO ()
foreign import ccall unsafe "hs_bytes" c_bytes :: Ptr Word8 -> Int64 -> IO ()
foreign import ccall unsafe "hs_input" c_input :: Ptr Word8 -> Int64 -> IO ()
foreign import ccall unsafe "hs_around" c_around :: Ptr Word8 -> Int64 -> IO ()
foreign import ccall unsafe "hs_error" c_error :: CString -> IO ()
foreign export ccall hs_run :: CInt -> CInt -> IO CInt
foreign export ccall hs_gc :: IO ()

hs_gc :: IO ()
hs_gc = performMajorGC

vec :: V.Vector Word8 -> IO ()
vec r = V.unsafeWith r $ \p -> c_bytes p (fromIntegral (V.length r))

szu :: (Word32, Word32, V.Vector Word8) -> IO ()
szu (w, h, r) = c_size (fromIntegral w) (fromIntegral h) >> vec r

szi :: (Int32, Int32, V.Vector Word8) -> IO ()
szi (w, h, r) = c_size (fromIntegral w) (fromIntegral h) >> vec r

mat :: F.Matrix3x3 -> IO ()
mat m = mapM_ c_value [F.m00 m, F.m01 m, F.m02 m, F.m10 m, F.m11 m, F.m12 m, F.m20 m, F.m21 m, F.m22 m]

crn :: F.Corners -> IO ()
crn c = mapM_ c_value [F.tlX c, F.tlY c, F.trX c, F.trY c, F.brX c, F.brY c, F.blX c, F.blY c]

-- a result that the caller has to free; a null pointer is the refusal
own :: Ptr a -> (Ptr a -> IO ()) -> IO ()
own r f
  | r == nullPtr = ioError (userError "null pointer")
  | otherwise = f r >> free r

hs_run :: CInt -> CInt -> IO CInt
hs_run op api = do
  w64 <- c_w
  h64 <- c_h
  ch64 <- c_ch
  q0 <- c_q 0
  q1 <- c_q 1
  q2 <- c_q 2
  q3 <- c_q 3
  p0 <- c_p 0
  p1 <- c_p 1
  p2 <- c_p 2
  [s0, s1] <- mapM (\i -> T.pack <$> (c_s i >>= peekCString)) [0, 1]
  n <- c_npts
  pts <- mapM (\i -> F.Point2D <$> c_pt i 0 <*> c_pt i 1) [0 .. fromIntegral n - 1]
  ms <- mapM c_p [0 .. 8]
  len <- fromIntegral <$> c_len
  off <- fromIntegral <$> c_offset
  src <- c_data
  let total = off + len + 8 :: Int
  fp <- mallocForeignPtrBytes total
  withForeignPtr fp $ \p -> fillBytes p 0x5A total >> copyBytes (p `plusPtr` off) src len
  let w = fromIntegral w64 :: Word32
      h = fromIntegral h64 :: Word32
      wi = fromIntegral w64 :: Int32
      hi = fromIntegral h64 :: Int32
      ch = fromIntegral ch64 :: Word32
      b0 = q0 /= 0
      whole = V.unsafeFromForeignPtr0 fp total :: V.Vector Word8
      v = V.slice off len whole
      corners k = let f j = pts !! (k + j) in
        F.Corners (F.pointX (f 0)) (F.pointY (f 0)) (F.pointX (f 1)) (F.pointY (f 1)) (F.pointX (f 2)) (F.pointY (f 2)) (F.pointX (f 3)) (F.pointY (f 3))
      matrix = let [a, b, c, d, e, f, g, i, j] = ms in F.Matrix3x3 a b c d e f g i j
      run = case (fromIntegral op :: Int, api) of
        (0, 0) -> F.grayscale w h v >>= vec
        (1, 0) -> F.grayscaleStretch w h v >>= vec
        (27, 0) -> F.rgbaToGrayscale w h v >>= vec
        (31, 0) -> F.singleToMultichannel w h v >>= vec
        (16, 0) -> F.flipX w h v >>= vec
        (17, 0) -> F.flipY w h v >>= vec
        (18, 0) -> F.transpose w h v >>= vec
        (19, 0) -> F.transverse w h v >>= vec
        (28, 0) -> F.rotate90CW w h v >>= vec
        (29, 0) -> F.rotate180 w h v >>= vec
        (30, 0) -> F.rotate270CW w h v >>= vec
        (4, 0) -> F.gaussianBlur w h p0 v >>= vec
        (3, 0) -> F.otsuThreshold w h b0 v >>= vec
        (5, 0) -> F.bwSmart w h b0 v >>= vec
        (2, 0) -> F.applyGlobalThreshold (w * h) (fromIntegral q0) v >>= vec
        (6, 0) -> F.resize w h p0 p1 v >>= szu
        (7, 0) -> F.convertToBinary wi hi s0 s1 v >>= vec
        (9, 0) -> F.crop w h ch (fromIntegral q0) (fromIntegral q1) (fromIntegral q2) (fromIntegral q3) v >>= vec
        (10, 0) -> F.drawCircle w h ch s0 p0 p1 p2 v >>= vec
        (11, 0) -> F.drawDisk w h ch s0 p0 p1 p2 v >>= vec
        (12, 0) -> F.addBorder w h ch s0 (fromIntegral q0) v >>= szu
        (13, 0) -> do { f <- c_path >>= peekCString; o <- F.getExifOrientation f; c_value (fromIntegral o) }
        (14, 0) -> F.extractDocument w h (fromIntegral q0) (fromIntegral q1) v >>= vec
        (15, 0) -> F.extractDocumentAuto w h v >>= szu
        (20, 0) -> F.foerstnerCorner w h p0 v >>= vec
        (21, 0) -> F.generateHistogram w h ch v >>= szu
        (22, 0) -> do { (r, g, b) <- F.parseHexColor s0; mapM_ (c_value . fromIntegral) [r, g, b] }
        (23, 0) -> F.calculatePerspectiveTransform (corners 0) (corners 4) >>= mat
        (24, 0) -> F.applyMatrix3x3 wi hi (fromIntegral q0) (fromIntegral q1) matrix v >>= vec
        (26, 0) -> F.detectCorners wi hi v >>= crn
        (32, 0) -> F.sobelEdgeDetection w h ch v >>= vec
        (34, 0) -> F.trim wi hi ch v >>= szi
        (35, 0) -> F.trimThreshold wi hi ch p0 v >>= szi
        (36, 0) -> F.watershedSegmentation w h pts b0 v >>= vec
        (37, 0) -> F.binaryDilationDisk wi hi (fromIntegral q0) v >>= vec
        (38, 0) -> F.binaryErosionDisk wi hi (fromIntegral q0) v >>= vec
        (39, 0) -> F.binaryClosingDisk wi hi (fromIntegral q0) v >>= vec
        (40, 0) -> F.binaryOpeningDisk wi hi (fromIntegral q0) v >>= vec
        (0, 1) -> V.unsafeWith v $ \ip -> do { r <- F.grayscalePtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (1, 1) -> V.unsafeWith v $ \ip -> do { r <- F.grayscaleStretchPtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (27, 1) -> V.unsafeWith v $ \ip -> do { r <- F.rgbaToGrayscalePtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (31, 1) -> V.unsafeWith v $ \ip -> do { r <- F.singleToMultichannelPtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (4, 1) -> V.unsafeWith v $ \ip -> do { r <- F.gaussianBlurPtr w h p0 ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (3, 1) -> V.unsafeWith v $ \ip -> do { r <- F.otsuThresholdPtr w h b0 ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (5, 1) -> V.unsafeWith v $ \ip -> do { r <- F.bwSmartPtr w h b0 ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (16, 1) -> V.unsafeWith v $ \ip -> do { r <- F.flipXPtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (17, 1) -> V.unsafeWith v $ \ip -> do { r <- F.flipYPtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (18, 1) -> V.unsafeWith v $ \ip -> do { r <- F.transposePtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (28, 1) -> V.unsafeWith v $ \ip -> do { r <- F.rotate90CWPtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (29, 1) -> V.unsafeWith v $ \ip -> do { r <- F.rotate180Ptr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (30, 1) -> V.unsafeWith v $ \ip -> do { r <- F.rotate270CWPtr w h ip; k <- c_reflen; own r (\x -> c_bytes x k) }
        (23, 1) -> alloca $ \a -> alloca $ \b -> do { poke a (corners 0); poke b (corners 4); r <- F.calculatePerspectiveTransformPtr a b; own r (\x -> peek x >>= mat) }
        (24, 1) -> V.unsafeWith v $ \ip -> alloca $ \a -> do { poke a matrix; r <- F.applyMatrix3x3Ptr wi hi ip (fromIntegral q0) (fromIntegral q1) a; k <- c_reflen; own r (\x -> c_bytes x k) }
        (26, 1) -> V.unsafeWith v $ \ip -> do { r <- F.detectCornersPtr ip wi hi; own r (\x -> peek x >>= crn) }
        _ -> error "no such operation"
  r <- try (run >>= evaluate) :: IO (Either SomeException ())
  case r of
    Left e -> withCString (take 150 (displayException e)) c_error
    Right () -> return ()
  withForeignPtr fp $ \p -> c_input (p `plusPtr` off) (fromIntegral len) >> c_around p (fromIntegral total)
  return 0

main :: IO ()
main = do
  setForeignEncoding char8
  setFileSystemEncoding char8
  name <- getProgName
  args <- getArgs
  strs <- mapM newCString (name : args)
  arr <- newArray (strs ++ [nullPtr])
  _ <- c_main (fromIntegral (length strs)) arr
  forM_ strs free
