------------------------------ MODULE TagTable ------------------------------
(* The recognised Exif tags, their codes and names (Exif 2.32 / ExifTool).   *)
EXTENDS Naturals, Sequences
TagTable == <<
  <<0, "GPSVersionID">>,
  <<1, "GPSLatitudeRef">>,
  <<2, "GPSLatitude">>,
  <<3, "GPSLongitudeRef">>,
  <<4, "GPSLongitude">>,
  <<5, "GPSAltitudeRef">>,
  <<6, "GPSAltitude">>,
  <<7, "GPSTimeStamp">>,
  <<8, "GPSSatellites">>,
  <<9, "GPSStatus">>,
  <<10, "GPSMeasureMode">>,
  <<11, "GPSDOP">>,
  <<12, "GPSSpeedRef">>,
  <<13, "GPSSpeed">>,
  <<14, "GPSTrackRef">>,
  <<15, "GPSTrack">>,
  <<16, "GPSImgDirectionRef">>,
  <<17, "GPSImgDirection">>,
  <<18, "GPSMapDatum">>,
  <<19, "GPSDestLatitudeRef">>,
  <<20, "GPSDestLatitude">>,
  <<21, "GPSDestLongitudeRef">>,
  <<22, "GPSDestLongitude">>,
  <<23, "GPSDestBearingRef">>,
  <<24, "GPSDestBearing">>,
  <<25, "GPSDestDistanceRef">>,
  <<26, "GPSDestDistance">>,
  <<27, "GPSProcessingMethod">>,
  <<28, "GPSAreaInformation">>,
  <<29, "GPSDateStamp">>,
  <<30, "GPSDifferential">>,
  <<256, "ImageWidth">>,
  <<257, "ImageHeight">>,
  <<258, "BitsPerSample">>,
  <<259, "Compression">>,
  <<262, "PhotometricInterpretation">>,
  <<270, "ImageDescription">>,
  <<271, "Make">>,
  <<272, "Model">>,
  <<274, "Orientation">>,
  <<277, "SamplesPerPixel">>,
  <<278, "RowsPerStrip">>,
  <<282, "XResolution">>,
  <<283, "YResolution">>,
  <<284, "PlanarConfiguration">>,
  <<296, "ResolutionUnit">>,
  <<305, "Software">>,
  <<306, "ModifyDate">>,
  <<316, "HostComputer">>,
  <<318, "WhitePoint">>,
  <<319, "PrimaryChromaticities">>,
  <<513, "ThumbnailOffset">>,
  <<514, "ThumbnailLength">>,
  <<529, "YCbCrCoefficients">>,
  <<531, "YCbCrPositioning">>,
  <<532, "ReferenceBlackWhite">>,
  <<33432, "Copyright">>,
  <<33434, "ExposureTime">>,
  <<33437, "FNumber">>,
  <<34665, "ExifOffset">>,
  <<34850, "ExposureProgram">>,
  <<34852, "SpectralSensitivity">>,
  <<34853, "GPSInfo">>,
  <<34855, "ISOSpeedRatings">>,
  <<34856, "OECF">>,
  <<34864, "SensitivityType">>,
  <<34866, "RecommendedExposureIndex">>,
  <<36864, "ExifVersion">>,
  <<36867, "DateTimeOriginal">>,
  <<36868, "CreateDate">>,
  <<36880, "OffsetTime">>,
  <<36881, "OffsetTimeOriginal">>,
  <<36882, "OffsetTimeDigitized">>,
  <<37121, "ComponentsConfiguration">>,
  <<37377, "ShutterSpeedValue">>,
  <<37378, "ApertureValue">>,
  <<37379, "BrightnessValue">>,
  <<37380, "ExposureBiasValue">>,
  <<37381, "MaxApertureValue">>,
  <<37382, "SubjectDistance">>,
  <<37383, "MeteringMode">>,
  <<37384, "LightSource">>,
  <<37385, "Flash">>,
  <<37386, "FocalLength">>,
  <<37396, "SubjectArea">>,
  <<37500, "MakerNote">>,
  <<37510, "UserComment">>,
  <<37520, "SubSecTime">>,
  <<37521, "SubSecTimeOriginal">>,
  <<37522, "SubSecTimeDigitized">>,
  <<40960, "FlashPixVersion">>,
  <<40961, "ColorSpace">>,
  <<40962, "ExifImageWidth">>,
  <<40963, "ExifImageHeight">>,
  <<40964, "RelatedSoundFile">>,
  <<40965, "InteropOffset">>,
  <<41483, "FlashEnergy">>,
  <<41486, "FocalPlaneXResolution">>,
  <<41487, "FocalPlaneYResolution">>,
  <<41488, "FocalPlaneResolutionUnit">>,
  <<41492, "SubjectLocation">>,
  <<41493, "ExposureIndex">>,
  <<41495, "SensingMethod">>,
  <<41728, "FileSource">>,
  <<41729, "SceneType">>,
  <<41730, "CFAPattern">>,
  <<41985, "CustomRendered">>,
  <<41986, "ExposureMode">>,
  <<41987, "WhiteBalanceMode">>,
  <<41988, "DigitalZoomRatio">>,
  <<41989, "FocalLengthIn35mmFilm">>,
  <<41990, "SceneCaptureType">>,
  <<41991, "GainControl">>,
  <<41992, "Contrast">>,
  <<41993, "Saturation">>,
  <<41994, "Sharpness">>,
  <<41995, "DeviceSettingDescription">>,
  <<41996, "SubjectDistanceRange">>,
  <<42016, "ImageUniqueID">>,
  <<42034, "LensSpecification">>,
  <<42035, "LensMake">>,
  <<42036, "LensModel">>,
  <<42240, "Gamma">>
>>
KnownCodes == {TagTable[i][1] : i \in 1..Len(TagTable)}
TrackTags == <<"Make", "Model", "Software", "CreateDate", "DurationMs", "Width", "Height", "GpsIso6709", "Author">>
=============================================================================
