// generated by tools/gen_lists.py, reviewed, committed: every enumeration with the DXF number of each value
#[macro_export]
macro_rules! enum_lists { ($m:ident, $c:expr) => {
    $m!($c, Dwf3DPrecision, [(Deviation_1, 1), (Deviation_0_5, 2), (Deviation_0_2, 3), (Deviation_0_1, 4), (Deviation_0_01, 5), (Deviation_0_001, 6)]);
    $m!($c, AngleDirection, [(CounterClockwise, 0), (Clockwise, 1)]);
    $m!($c, AngleFormat, [(DecimalDegrees, 0), (DegreesMinutesSeconds, 1), (Gradians, 2), (Radians, 3), (SurveyorsUnits, 4)]);
    $m!($c, AttachmentPoint, [(TopLeft, 1), (TopCenter, 2), (TopRight, 3), (MiddleLeft, 4), (MiddleCenter, 5), (MiddleRight, 6), (BottomLeft, 7), (BottomCenter, 8), (BottomRight, 9)]);
    $m!($c, AttributeVisibility, [(None, 0), (Normal, 1), (All, 2)]);
    $m!($c, BackgroundFillSetting, [(Off, 0), (UseBackgroundFillColor, 1), (UseDrawingWindowColor, 2)]);
    $m!($c, BottomTextAttachmentDirection, [(Center, 9), (UnderlineAndCenter, 10)]);
    $m!($c, CoordinateDisplay, [(Static, 0), (ContinuousUpdate, 1), (DistanceAngleFormat, 2)]);
    $m!($c, DefaultLightingType, [(OneDistantLight, 0), (TwoDistantLights, 1)]);
    $m!($c, DesignCoordinateType, [(Unknown, 0), (LocalGrid, 1), (ProjectedGrid, 2), (Geographic, 3)]);
    $m!($c, DiagnosticBSPMode, [(Depth, 0), (Size, 1)]);
    $m!($c, DiagnosticPhotonMode, [(Density, 0), (Irradiance, 1)]);
    $m!($c, DictionaryDuplicateRecordHandling, [(NotApplicable, 0), (KeepExisting, 1), (UseClone, 2), (UpdateXrefAndName, 3), (UpdateName, 4), (UnmangleName, 5)]);
    $m!($c, DimensionArcSymbolDisplayMode, [(SymbolBeforeText, 0), (SymbolAboveText, 1), (Suppress, 2)]);
    $m!($c, DimensionAssociativity, [(NoAssociationExploded, 0), (NonAssociativeObjects, 1), (AssociativeObjects, 2)]);
    $m!($c, DimensionFit, [(TextAndArrowsOutsideLines, 0), (MoveArrowsFirst, 1), (MoveTextFirst, 2), (MoveEitherForBestFit, 3)]);
    $m!($c, DimensionFractionFormat, [(HorizontalStacking, 0), (DiagonalStacking, 1), (NotStacked, 2)]);
    $m!($c, DimensionTextBackgroundColorMode, [(None, 0), (UseDrawingBackground, 1), (Custom, 2)]);
    $m!($c, DimensionTextJustification, [(AboveLineCenter, 0), (AboveLineNextToFirstExtension, 1), (AboveLineNextToSecondExtension, 2), (AboveLineCenteredOnFirstExtension, 3), (AboveLineCenteredOnSecondExtension, 4)]);
    $m!($c, DimensionTextMovementRule, [(MoveLineWithText, 0), (AddLeaderWhenTextIsMoved, 1), (MoveTextFreely, 2)]);
    $m!($c, DimensionType, [(RotatedHorizontalOrVertical, 0), (Aligned, 1), (Angular, 2), (Diameter, 3), (Radius, 4), (AngularThreePoint, 5), (Ordinate, 6)]);
    $m!($c, DragMode, [(Off, 0), (On, 1), (Auto, 2)]);
    $m!($c, DrawingDirection, [(LeftToRight, 1), (TopToBottom, 3), (ByStyle, 5)]);
    $m!($c, DrawingUnits, [(English, 0), (Metric, 1)]);
    $m!($c, EdgeStyleModel, [(NoEdges, 0), (IsoLines, 1), (FacetEdges, 2)]);
    $m!($c, EndCapSetting, [(None, 0), (Round, 1), (Angle, 2), (Square, 3)]);
    $m!($c, FaceColorMode, [(NoColor, 0), (ObjectColor, 1), (BackgroundColor, 2), (CustomColor, 3), (MonoColor, 4), (Tinted, 5), (Desaturated, 6)]);
    $m!($c, FaceLightingModel, [(Invisible, 0), (Visible, 1), (Phong, 2), (Gooch, 3)]);
    $m!($c, FaceLightingQuality, [(None, 0), (PerFace, 1), (PerVertex, 2)]);
    $m!($c, FaceModifier, [(None, 0), (Opacity, 1), (Specular, 2)]);
    $m!($c, FlowDirection, [(Down, 0), (Up, 1)]);
    $m!($c, FontType, [(TTF, 0), (SHX, 1)]);
    $m!($c, GeoDataVersion, [(R2009, 1), (R2010, 2)]);
    $m!($c, HelixConstraint, [(ConstrainTurnHeight, 0), (ConstrainTurns, 1), (ConstrainHeight, 2)]);
    $m!($c, HorizontalTextJustification, [(Left, 0), (Center, 1), (Right, 2), (Aligned, 3), (Middle, 4), (Fit, 5)]);
    $m!($c, ImageClippingBoundaryType, [(Rectangular, 1), (Polygonal, 2)]);
    $m!($c, ImageResolutionUnits, [(NoUnits, 0), (Centimeters, 2), (Inches, 5)]);
    $m!($c, JoinStyle, [(None, 0), (Round, 1), (Angle, 2), (Flat, 3)]);
    $m!($c, Justification, [(Top, 0), (Middle, 1), (Bottom, 2)]);
    $m!($c, LayerAndSpatialIndexSaveMode, [(None, 0), (LayerIndex, 1), (SpatialIndex, 2), (LayerAndSpatialIndex, 3)]);
    $m!($c, LeaderCreationAnnotationType, [(WithTextAnnotation, 0), (WithToleranceAnnotation, 1), (WithBlockReferenceAnnotation, 2), (NoAnnotation, 3)]);
    $m!($c, LeaderHooklineDirection, [(OppositeFromHorizontalVector, 0), (SameAsHorizontalVector, 1)]);
    $m!($c, LeaderPathType, [(StraightLineSegments, 0), (Spline, 1)]);
    $m!($c, LightAttenuationType, [(None, 0), (InverseLinear, 1), (InverseSquare, 2)]);
    $m!($c, LightType, [(Distant, 1), (Point, 2), (Spot, 3)]);
    $m!($c, LineTypeStyle, [(Off, 0), (Solid, 1), (Dashed, 2), (Dotted, 3), (ShortDash, 4), (MediumDash, 5), (LongDash, 6), (DoubleShortDash, 7), (DoubleMediumDash, 8), (DoubleLongDash, 9), (MediumLongDash, 10), (SparseDot, 11)]);
    $m!($c, LoftedObjectNormalMode, [(Ruled, 0), (SmoothFit, 1), (StartCrossSection, 2), (EndCrossSection, 3), (StartAndEndCrossSections, 4), (AllCrossSections, 5), (UseDraftAngleAndMagnitude, 6)]);
    $m!($c, MapAutoTransformMethod, [(NoAutoTransform, 1), (ScaleToCurrentEntity, 2), (IncludeCurrentBlockTransform, 4)]);
    $m!($c, MapProjectionMethod, [(Planar, 1), (Box, 2), (Cylinder, 3), (Sphere, 4)]);
    $m!($c, MapTilingMethod, [(Tile, 1), (Crop, 2), (Clamp, 3)]);
    $m!($c, MTextFlag, [(MultilineAttribute, 2), (ConstantMultilineAttributeDefinition, 4)]);
    $m!($c, MTextLineSpacingStyle, [(AtLeast, 1), (Exact, 2)]);
    $m!($c, NonAngularUnits, [(Scientific, 1), (Decimal, 2), (Engineering, 3), (Architectural, 4), (Fractional, 5), (WindowsDesktop, 6)]);
    $m!($c, ObjectOsnapType, [(None, 0), (Endpoint, 1), (Midpoint, 2), (Center, 3), (Node, 4), (Quadrant, 5), (Intersection, 6), (Insertion, 7), (Perpendicular, 8), (Tangent, 9), (Nearest, 10), (ApparentIntersection, 11), (Parallel, 12), (StartPoint, 13)]);
    $m!($c, OleObjectType, [(Link, 1), (Embedded, 2), (Static, 3)]);
    $m!($c, OrthographicViewType, [(None, 0), (Top, 1), (Bottom, 2), (Front, 3), (Back, 4), (Left, 5), (Right, 6)]);
    $m!($c, PickStyle, [(None, 0), (Group, 1), (AssociativeHatch, 2), (GroupAndAssociativeHatch, 3)]);
    $m!($c, PlotPaperUnits, [(Inches, 0), (Millimeters, 1), (Pixels, 2)]);
    $m!($c, PlotRotation, [(NoRotation, 0), (CounterClockwise90Degrees, 1), (UpsideDown, 2), (Clockwise90Degrees, 3)]);
    $m!($c, PlotStyle, [(ByLayer, 0), (ByBlock, 1), (ByDictionaryDefault, 2), (ByObjectId, 3)]);
    $m!($c, PlotType, [(LastScreenDisplay, 0), (DrawingExtents, 1), (DrawingLimits, 2), (SpecificView, 3), (SpecificWindow, 4), (LayoutInformation, 5)]);
    $m!($c, PolylineCurvedAndSmoothSurfaceType, [(None, 0), (QuadraticBSpline, 5), (CubicBSpline, 6), (Bezier, 8)]);
    $m!($c, PolySketchMode, [(SketchLines, 0), (SketchPolylines, 1)]);
    $m!($c, RasterImageUnits, [(None, 0), (Millimeter, 1), (Centimeter, 2), (Meter, 3), (Kilometer, 4), (Inch, 5), (Foot, 6), (Yard, 7), (Mile, 8)]);
    $m!($c, RenderAccuracy, [(Low, 0), (Draft, 1), (High, 2)]);
    $m!($c, RenderDestination, [(RenderWindow, 0), (Viewport, 1)]);
    $m!($c, RenderDiagnosticGridMode, [(Object, 0), (World, 1), (Camera, 2)]);
    $m!($c, RenderDiagnosticMode, [(Off, 0), (Grid, 1), (Photon, 2), (BSP, 4)]);
    $m!($c, RenderDuration, [(ByTime, 0), (ByLevel, 1), (UntilSatisfactory, 2)]);
    $m!($c, RenderProcedure, [(View, 0), (Crop, 1), (Selection, 2)]);
    $m!($c, RenderShadowMode, [(Simple, 0), (Sort, 1), (Segment, 2)]);
    $m!($c, RotatedDimensionType, [(Parallel, 0), (Perpendicular, 1)]);
    $m!($c, SamplingFilterType, [(Box, 0), (Triangle, 1), (Gauss, 2), (Mitchell, 3), (Lanczos, 4)]);
    $m!($c, ScaleEstimationMethod, [(None, 1), (UserSpecified, 2), (GridAtReferencePoint, 3), (Prismoidal, 4)]);
    $m!($c, ShadeEdgeMode, [(FacesShadedEdgeNotHighlighted, 0), (FacesShadedEdgesHighlightedInBlack, 1), (FacesNotFilledEdgesInEntityColor, 2), (FacesInEntityColorEdgesInBlack, 3)]);
    $m!($c, ShadePlotMode, [(AsDisplayed, 0), (Wireframe, 1), (Hidden, 2), (Rendered, 3)]);
    $m!($c, ShadePlotResolutionLevel, [(Draft, 0), (Preview, 1), (Normal, 2), (Presentation, 3), (Maximum, 4), (Custom, 5)]);
    $m!($c, ShadowMode, [(CastsAndReceivesShadows, 0), (CastsShadows, 1), (ReceivesShadows, 2), (IgnoresShadows, 3)]);
    $m!($c, ShadowType, [(RayTraced, 0), (ShadowMaps, 1)]);
    $m!($c, SnapIsometricPlane, [(Left, 0), (Top, 1), (Right, 2)]);
    $m!($c, SnapStyle, [(Standard, 0), (Isometric, 1)]);
    $m!($c, SolidHistoryMode, [(None, 0), (DoesNotOverride, 1), (Override, 2)]);
    $m!($c, StandardScale, [(ScaledToFit, 0), (Scale_1_128_inch_to_1_foot, 1), (Scale_1_64_inch_to_1_foot, 2), (Scale_1_32_inch_to_1_foot, 3), (Scale_1_16_inch_to_1_foot, 4), (Scale_3_32_inch_to_1_foot, 5), (Scale_1_8_inch_to_1_foot, 6), (Scale_3_16_inch_to_1_foot, 7), (Scale_1_4_inch_to_1_foot, 8), (Scale_3_8_inch_to_1_foot, 9), (Scale_1_2_inch_to_1_foot, 10), (Scale_3_4_inch_to_1_foot, 11), (Scale_1_inch_to_1_foot, 12), (Scale_3_inches_to_1_foot, 13), (Scale_6_inches_to_1_foot, 14), (Scale_1_foot_to_1_foot, 15), (Scale_1_to_1, 16), (Scale_1_to_2, 17), (Scale_1_to_4, 18), (Scale_1_to_8, 19), (Scale_1_to_10, 20), (Scale_1_to_16, 21), (Scale_1_to_20, 22), (Scale_1_to_30, 23), (Scale_1_to_40, 24), (Scale_1_to_50, 25), (Scale_1_to_100, 26), (Scale_2_to_1, 27), (Scale_4_to_1, 28), (Scale_8_to_1, 29), (Scale_10_to_1, 30), (Scale_100_to_1, 31), (Scale_1000_to_1, 32)]);
    $m!($c, SubentityType, [(Edge, 1), (Face, 2)]);
    $m!($c, TextAttachmentDirection, [(Horizontal, 0), (Vertical, 1)]);
    $m!($c, TextDirection, [(LeftToRight, 0), (RightToLeft, 1)]);
    $m!($c, TextLineSpacingStyle, [(AtLeast, 1), (Exact, 2)]);
    $m!($c, TileModeDescriptor, [(InTiledViewport, 0), (InNonTiledViewport, 1)]);
    $m!($c, TileOrder, [(Hilbert, 0), (Spiral, 1), (LeftToRight, 2), (RightToLeft, 3), (TopToBottom, 4), (BottomToTop, 5)]);
    $m!($c, UcsOrthographicType, [(NotOrthographic, 0), (Top, 1), (Bottom, 2), (Front, 3), (Back, 4), (Left, 5), (Right, 6)]);
    $m!($c, DrawingTimeZone, [(InternationalDateLineWest, -12000), (MidwayIsland_Samoa, -11000), (Hawaii, -10000), (Alaska, -9000), (PacificTime_US_Canada_SanFrancisco_Vancouver, -8000), (Arizona, -7000), (Mazatlan, -7002), (CentralAmerica, -6000), (CentralTime_US_Canada, -6001), (Guadalajara_MexicoCity_Monterrey, -6002), (Saskatchewan, -6003), (EasternTime_US_Canada_, -5000), (Indiana_East_, -5001), (Bogota_Lima_Quito, -5002), (AtlanticTime_Canada_, -4000), (Caracas_LaPaz, -4001), (Santiago, -4002), (Newfoundland, -3300), (Brasilia, -3000), (BuenosAires_Georgetown, -3001), (Greenland, -3002), (MidAtlantic, -2000), (Azores, -1000), (CapeVerdeIs, -1001), (UniversalCoordinatedTime, 0), (GreenwichMeanTime, 1), (Casablanca_Monrovia, 2), (Amsterdam_Berlin_Bern_Rome_Stockholm, 1000), (Brussels_Madrid_Copenhagen_Paris, 1001), (Belgrade_Bratislava_Budapest_Ljubljana_Prague, 1002), (Sarajevo_Skopje_Warsaw_Zagreb, 1003), (WestCentralAfrica, 1004), (Athens_Beirut_Istanbul_Minsk, 2000), (Bucharest, 2001), (Cairo, 2002), (Harare_Pretoria, 2003), (Helsinki_Kyiv_Sofia_Talinn_Vilnius, 2004), (Jerusalem, 2005), (Moscow_StPetersburg_Volograd, 3000), (Kuwait_Riyadh, 3001), (Baghdad, 3002), (Nairobi, 3003), (Tehran, 3300), (AbuDhabi_Muscat, 4000), (Baku_Tbilisi_Yerevan, 4001), (Kabul, 4300), (Ekaterinburg, 5000), (Islamabad_Karachi_Tashkent, 5001), (Chennai_Kolkata_Mumbai_NewDelhi, 5300), (Kathmandu, 5450), (Almaty_Novosibirsk, 6000), (Astana_Dhaka, 6001), (SriJayawardenepura, 6002), (Rangoon, 6300), (Bangkok_Hanoi_Jakarta, 7000), (Krasnoyarsk, 7001), (Beijing_Chongqing_HongKong_Urumqi, 8000), (KualaLumpur_Singapore, 8001), (Taipei, 8002), (Irkutsk_UlaanBataar, 8003), (Perth, 8004), (Osaka_Sapporo_Tokyo, 9000), (Seoul, 9001), (Yakutsk, 9002), (Adelaide, 9300), (Darwin, 9301), (Canberra_Melbourne_Sydney, 10000), (Guam_PortMoresby, 10001), (Brisbane, 10002), (Hobart, 10003), (Vladivostok, 10004), (Magadan_SolomonIs_NewCaledonia, 11000), (Auckland_Wellington, 12000), (Fiji_Kamchatka_MarshallIs, 12001), (Nukualofa_Tonga, 13000)]);
    $m!($c, TopTextAttachmentDirection, [(Center, 9), (OverlineAndCenter, 10)]);
    $m!($c, UnderlayFrameMode, [(None, 0), (DisplayAndPlot, 1), (DisplayNoPlot, 2)]);
    $m!($c, UnitFormat, [(Scientific, 1), (Decimal, 2), (Engineering, 3), (ArchitecturalStacked, 4), (FractionalStacked, 5), (Architectural, 6), (Fractional, 7)]);
    $m!($c, Units, [(Unitless, 0), (Inches, 1), (Feet, 2), (Miles, 3), (Millimeters, 4), (Centimeters, 5), (Meters, 6), (Kilometers, 7), (Microinches, 8), (Mils, 9), (Yards, 10), (Angstroms, 11), (Nanometers, 12), (Microns, 13), (Decimeters, 14), (Decameters, 15), (Hectometers, 16), (Gigameters, 17), (AstronomicalUnits, 18), (LightYears, 19), (Parsecs, 20), (USSurveyFeet, 21), (USSurveyInch, 22), (USSurveyYard, 23), (USSurveyMile, 24)]);
    $m!($c, ViewRenderMode, [(Classic2D, 0), (Wireframe, 1), (HiddenLine, 2), (FlatShaded, 3), (GouraudShaded, 4), (FlatShadedWithWireframe, 5), (GouraudShadedWithWireframe, 6)]);
    $m!($c, Version, [(R2010, 0)]);
    $m!($c, VerticalTextJustification, [(Baseline, 0), (Bottom, 1), (Middle, 2), (Top, 3)]);
    $m!($c, XrefClippingBoundaryVisibility, [(NotDisplayedNotPlotted, 0), (DisplayedAndPlotted, 1), (DisplayedNotPlotted, 2)]);
    $m!($c, UnitZeroSuppression, [(SuppressZeroFeetAndZeroInches, 0), (IncludeZeroFeetAndZeroInches, 1), (IncludeZeroFeetAndSuppressZeroInches, 2), (IncludeZeroInchesAndSuppressZeroFeet, 3)]);
} }
