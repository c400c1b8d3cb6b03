// fixture descriptions as the library writes them, one for each part of a description
#pragma once
static const char gdtf1_0[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="T0_y" LongName="T1_y" Manufacturer="Maker" Description="T2_y" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="T3_y" ThumbnailOffsetX="12" ThumbnailOffsetY="13" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters/><Emitters/><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries/><DMXModes/><Revisions><Revision Text="T4_y" Date="15-03-04T05:06:07" UserID="16" ModifiedBy="T5_y"/><Revision Text="T6_y" Date="19-03-04T05:06:07" UserID="20" ModifiedBy="T7_y"/></Revisions><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf1_1[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups><ActivationGroup Name="Group A"/><ActivationGroup Name="Group B"/></ActivationGroups><FeatureGroups><FeatureGroup Name="Position" Pretty="T0_y"><Feature Name="PT"/><Feature Name="Dim"/></FeatureGroup><FeatureGroup Name="Control" Pretty="T1_y"><Feature Name="PT"/><Feature Name="X"/></FeatureGroup></FeatureGroups><Attributes><Attribute Name="Pan" Pretty="T2_y" ActivationGroup="Group A" Feature="Position.PT" PhysicalUnit="None"><SubPhysicalUnit Type="PlacementOffset" PhysicalUnit="None" PhysicalFrom="0.000000" PhysicalTo="0.000000"/><SubPhysicalUnit Type="AmplitudeMax" PhysicalUnit="Percent" PhysicalFrom="0.000000" PhysicalTo="0.000000"/></Attribute><Attribute Name="Tilt" Pretty="T3_y" ActivationGroup="Group B" Feature="Position.Dim" MainAttribute="Pan" PhysicalUnit="Percent"/><Attribute Name="Dimmer" Pretty="T4_y" Feature="Control.PT" Color="0.000000,0.000000,0.000000" PhysicalUnit="Length"><SubPhysicalUnit Type="PlacementOffset" PhysicalUnit="None" PhysicalFrom="0.000000" PhysicalTo="0.000000"/><SubPhysicalUnit Type="AmplitudeMax" PhysicalUnit="Percent" PhysicalFrom="0.000000" PhysicalTo="0.000000"/></Attribute></Attributes></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters/><Emitters/><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries/><DMXModes/><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf1_2[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels><Wheel Name="Colors"><Slot Name="A" Color="0.000000,0.000000,0.000000" MediaFileName="T0_y" Duration="0.123456" Width="10" Height="11" FPS="12"><AnimationSystem P1="0.000000,0.000000" P2="0.000000,0.000000" P3="0.000000,0.000000" Radius="0.000000"/></Slot><Slot Name="B" Color="0.000000,0.000000,0.000000" MediaFileName="T1_y" Filter="Filter" Duration="42.000000" Width="15" Height="16" FPS="17"><Facet Color="0.000000,0.000000,0.000000" Rotation="{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}"/><Facet Color="0.000000,0.000000,0.000000" Rotation="{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}"/></Slot></Wheel><Wheel Name="Gobos"><Slot Name="A" Color="0.000000,0.000000,0.000000" MediaFileName="T2_y" Filter="Filter" Duration="42.000000" Width="20" Height="21" FPS="22"><AnimationSystem P1="0.000000,0.000000" P2="0.000000,0.000000" P3="0.000000,0.000000" Radius="0.000000"/></Slot><Slot Name="B" Color="0.000000,0.000000,0.000000" MediaFileName="T3_y" Duration="42.000000" Width="25" Height="26" FPS="27"><Facet Color="0.000000,0.000000,0.000000" Rotation="{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}"/><Facet Color="0.000000,0.000000,0.000000" Rotation="{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}"/></Slot></Wheel></Wheels><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters><Filter Name="Filter" Color="0.000000,0.000000,0.000000"/></Filters><Emitters/><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries/><DMXModes/><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf1_3[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters/><Emitters/><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models><Model Name="Base" Length="0.000000" Width="0.000000" Height="0.000000" PrimitiveType="Undefined" File="T0_y" SVGOffsetX="0.000000" SVGOffsetY="0.000000" SVGSideOffsetX="0.000000" SVGSideOffsetY="0.000000" SVGFrontOffsetX="0.000000" SVGFrontOffsetY="0.000000"/><Model Name="Yoke" Length="0.000000" Width="0.000000" Height="0.000000" PrimitiveType="Cube" File="T1_y" SVGOffsetX="0.000000" SVGOffsetY="0.000000" SVGSideOffsetX="0.000000" SVGSideOffsetY="0.000000" SVGFrontOffsetX="0.000000" SVGFrontOffsetY="0.000000"/></Models><Geometries/><DMXModes/><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf1_4[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters><Filter Name="CTB" Color="0.000000,0.000000,0.000000"/><Filter Name="CTO" Color="0.000000,0.000000,0.000000"><Measurement Physical="0.000000" Transmission="0.000000" InterpolationTo="Log"><MeasurementPoint WaveLength="0.000000" Energy="0.000000"/><MeasurementPoint WaveLength="0.000000" Energy="0.000000"/></Measurement><Measurement Physical="0.000000" Transmission="0.000000" InterpolationTo="Linear"><MeasurementPoint WaveLength="0.000000" Energy="0.000000"/><MeasurementPoint WaveLength="0.000000" Energy="0.000000"/></Measurement></Filter></Filters><Emitters><Emitter Name="Lamp" Color="0.000000,0.000000,0.000000" DominantWaveLength="0.000000" DiodePart="T0_y"><Measurement Physical="0.000000" LuminousIntensity="0.000000" InterpolationTo="Linear"><MeasurementPoint WaveLength="0.000000" Energy="0.000000"/><MeasurementPoint WaveLength="0.000000" Energy="0.000000"/></Measurement><Measurement Physical="0.000000" LuminousIntensity="0.000000" InterpolationTo="Step"><MeasurementPoint WaveLength="0.000000" Energy="0.000000"/><MeasurementPoint WaveLength="0.000000" Energy="0.000000"/></Measurement></Emitter><Emitter Name="LED" Color="0.000000,0.000000,0.000000" DominantWaveLength="0.000000" DiodePart="T1_y"/></Emitters><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="0.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries/><DMXModes/><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf1_5[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces><ColorSpace Name="CS1" Mode="sRGB"/><ColorSpace Name="CS2" Mode="Custom" Red="0.000000,0.000000,0.000000" Green="0.000000,0.000000,0.000000" Blue="0.000000,0.000000,0.000000" WhitePoint="0.000000,0.000000,0.000000"/></AdditionalColorSpaces><Gamuts><Gamut Name="G1" Points="{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}"/><Gamut Name="G2" Points="{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000}"/></Gamuts><Filters/><Emitters/><DMXProfiles><DMXProfile Name="P1"><Point DMXPercentage="0.000000" CFC3="0.000000" CFC2="0.000000" CFC1="0.000000" CFC0="0.000000"/><Point DMXPercentage="0.000000" CFC3="0.000000" CFC2="0.000000" CFC1="0.000000" CFC0="0.000000"/></DMXProfile><DMXProfile Name="P2"><Point DMXPercentage="0.000000" CFC3="0.000000" CFC2="0.000000" CFC1="0.000000" CFC0="0.000000"/><Point DMXPercentage="0.000000" CFC3="0.000000" CFC2="0.000000" CFC1="0.000000" CFC0="0.000000"/></DMXProfile></DMXProfiles><CRIs><CRIGroup ColorTemperature="0.000000"><CRI CES="CES01" ColorRenderingIndex="8"/><CRI CES="CES02" ColorRenderingIndex="9"/></CRIGroup><CRIGroup ColorTemperature="0.000000"><CRI CES="CES03" ColorRenderingIndex="10"/><CRI CES="CES04" ColorRenderingIndex="11"/></CRIGroup></CRIs><Connectors><Connector Name="DMX In" Type="XLR5" DMXBreak="12" Gender="13" Length="0.000000"/><Connector Name="Power" Type="powerCON" DMXBreak="14" Gender="15" Length="0.000000"/></Connectors><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries/><DMXModes/><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf2_0[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters/><Emitters/><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models><Model Name="ModelA" Length="0.000000" Width="0.000000" Height="0.000000" PrimitiveType="Undefined" File="" SVGOffsetX="0.000000" SVGOffsetY="0.000000" SVGSideOffsetX="0.000000" SVGSideOffsetY="0.000000" SVGFrontOffsetX="0.000000" SVGFrontOffsetY="0.000000"/><Model Name="ModelB" Length="0.000000" Width="0.000000" Height="0.000000" PrimitiveType="Undefined" File="" SVGOffsetX="0.000000" SVGOffsetY="0.000000" SVGSideOffsetX="0.000000" SVGSideOffsetY="0.000000" SVGFrontOffsetX="0.000000" SVGFrontOffsetY="0.000000"/></Models><Geometries><Geometry Name="Base" Position="{0.000000,0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000,0.000000}{0,0,0,1}" Model="ModelA"><MediaServerCamera Name="Yoke" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"><Structure Name="Head" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" Model="ModelB" LinkedGeometry="Target" StructureType="CenterLineBased" CrossSectionType="Tube" CrossSectionHeight="0.000000" CrossSectionWallThickness="0.000000" TrussCrossSection="T0_y"/><Geometry Name="Head 2" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"/></MediaServerCamera><FilterColor Name="Cell" Position="{0.000000,0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000,0.000000}{0,0,0,1}" Model="ModelA"/></Geometry><Display Name="Aux" Position="{0.000000,0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000,0.000000}{0.000000,0.000000,0.000000,0.000000}{0,0,0,1}" Texture="T1_y" Width="10" Height="11" IsCurved="false"/><Geometry Name="Target" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"/></Geometries><DMXModes/><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf2_1[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters/><Emitters/><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries><Beam Name="Base" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" LampType="Tungsten" PowerConsumption="0.000000" LuminousFlux="0.000000" ColorTemperature="0.000000" BeamAngle="0.000000" BeamRadius="0.000000" FieldAngle="0.000000" ThrowRatio="0.000000" RectangleRatio="0.000000" BeamType="None" ColorRenderingIndex="0"/><Geometry Name="Target" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"/></Geometries><DMXModes/><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf2_2[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters/><Emitters><Emitter Name="EmA" Color="0.300000,0.300000,1.000000" DominantWaveLength="0.000000" DiodePart=""/><Emitter Name="EmB" Color="0.300000,0.300000,1.000000" DominantWaveLength="0.000000" DiodePart=""/></Emitters><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries><Geometry Name="Cell" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"><WiringObject Name="Socket" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" ComponentType="Input" ConnectorType="" SignalType="" PinCount="0" SignalLayer="0" Orientation="Left" WireGroup="" ElectricalPayLoad="0.000000" VoltageRangeMin="0.000000" VoltageRangeMax="0.000000" FrequencyRangeMin="0.000000" FrequencyRangeMax="0.000000" CosPhi="0.000000" MaxPayLoad="0.000000" Voltage="0.000000" FuseCurrent="0.000000" FuseRating="B"/></Geometry><Axis Name="Cell2" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"/><Geometry Name="Base" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"><GeometryReference Name="Ref1" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" Geometry="Cell"><Break DMXBreak="8" DMXOffset="9"/></GeometryReference><GeometryReference Name="Ref2" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" Geometry="Cell"><Break DMXBreak="10" DMXOffset="11"/><Break DMXBreak="12" DMXOffset="13"/></GeometryReference><WiringObject Name="Plug" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" ComponentType="Input" ConnectorType="" SignalType="" PinCount="0" SignalLayer="0" Orientation="Left" WireGroup="" ElectricalPayLoad="0.000000" VoltageRangeMin="0.000000" VoltageRangeMax="0.000000" FrequencyRangeMin="0.000000" FrequencyRangeMax="0.000000" CosPhi="0.000000" MaxPayLoad="0.000000" Voltage="0.000000" FuseCurrent="0.000000" FuseRating="B"><WiringObject Name="Inner" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" ComponentType="Input" ConnectorType="" SignalType="" PinCount="0" SignalLayer="0" Orientation="Left" WireGroup="" ElectricalPayLoad="0.000000" VoltageRangeMin="0.000000" VoltageRangeMax="0.000000" FrequencyRangeMin="0.000000" FrequencyRangeMax="0.000000" CosPhi="0.000000" MaxPayLoad="0.000000" Voltage="0.000000" FuseCurrent="0.000000" FuseRating="B"><PinPatch ToWiringObject="Plug" FromPin="14" ToPin="15"/><PinPatch ToWiringObject="Inner" FromPin="16" ToPin="17"/></WiringObject></WiringObject><Structure Name="Truss" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" LinkedGeometry="Cell2" StructureType="CenterLineBased" CrossSectionType="TrussFramework" CrossSectionHeight="-0.000002" CrossSectionWallThickness="-0.000002" TrussCrossSection=""/><Beam Name="Beam" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" LampType="Discharge" PowerConsumption="1000.000000" LuminousFlux="10000.000000" ColorTemperature="6000.000000" BeamAngle="25.000000" BeamRadius="50.000000" FieldAngle="25.000000" ThrowRatio="1.000000" RectangleRatio="1.777700" BeamType="Wash" ColorRenderingIndex="100" EmitterSpectrum="EmA"><Laser Name="Laser" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}" ColorType="RGB" Color="-0.000002" OutputStrength="-0.000002" Emitter="EmA" BeamDiameter="-0.000002" BeamDivergenceMin="-0.000002" BeamDivergenceMax="-0.000002" ScanAnglePan="-0.000002" ScanAngleTilt="-0.000002" ScanSpeed="-0.000002"><Protocol Name="FB4"/><Protocol Name="ILDA"/></Laser></Beam></Geometry></Geometries><DMXModes/><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf3_0[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups><FeatureGroup Name="Control" Pretty="C"><Feature Name="Control"/></FeatureGroup></FeatureGroups><Attributes><Attribute Name="Dimmer" Pretty="Dimmer" Feature="Control.Control" PhysicalUnit="None"/><Attribute Name="Pan" Pretty="Pan" Feature="Control.Control" PhysicalUnit="None"/><Attribute Name="Tilt" Pretty="Tilt" Feature="Control.Control" PhysicalUnit="None"/></Attributes></AttributeDefinitions><Wheels><Wheel Name="Wheel"/></Wheels><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces><ColorSpace Name="Space" Mode="Custom" Red="0.312730,0.329020,100.000000" Green="0.312730,0.329020,100.000000" Blue="0.312730,0.329020,100.000000" WhitePoint="0.312730,0.329020,100.000000"/></AdditionalColorSpaces><Gamuts><Gamut Name="Gamut" Points="{0.100000,0.200000,0.300000}"/></Gamuts><Filters><Filter Name="Filter" Color="0.100000,0.200000,0.300000"/></Filters><Emitters><Emitter Name="Emitter" Color="0.100000,0.200000,0.300000" DominantWaveLength="0.000000" DiodePart=""/></Emitters><DMXProfiles><DMXProfile Name="Profile"/></DMXProfiles><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries><Geometry Name="Base" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"><Geometry Name="Head" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"/></Geometry></Geometries><DMXModes><DMXMode Name="Mode A" Description="T0_y" Geometry="Base"><DMXChannels/><Relations/><FTMacros/></DMXMode><DMXMode Name="Mode B" Description="T1_y" Geometry="Base"><DMXChannels><DMXChannel DMXBreak="1" Offset="" Highlight="None" Geometry="Head" InitialFunction="Head_Dimmer.Dimmer.First"><LogicalChannel Attribute="Dimmer" Snap="Yes" Master="Grand" MibFade="0.000000" DMXChangeTimeLimit="0.000000"><ChannelFunction Name="First" Default="4625/2" DMXFrom="0/2" PhysicalFrom="0.000000" PhysicalTo="0.000000" RealFade="0.000000" RealAcceleration="0.000000" Min="0.000000" Max="0.000000" CustomName="T2_y" OriginalAttribute="T3_y" Attribute="Dimmer" Emitter="Emitter" ColorSpace="Space" DMXProfile="Profile"/><ChannelFunction Name="Second" Default="4646/2" DMXFrom="100/2" PhysicalFrom="0.000000" PhysicalTo="0.000000" RealFade="0.000000" RealAcceleration="0.000000" Min="0.000000" Max="0.000000" CustomName="T4_y" OriginalAttribute="T5_y" Attribute="Pan" Wheel="Wheel" Filter="Filter" Gamut="Gamut"/></LogicalChannel><LogicalChannel Attribute="Pan" Snap="On" Master="None" MibFade="0.000000" DMXChangeTimeLimit="0.000000"><ChannelFunction Name="Third" Default="4667/2" DMXFrom="0/2" PhysicalFrom="0.000000" PhysicalTo="0.000000" RealFade="0.000000" RealAcceleration="0.000000" Min="0.000000" Max="0.000000" CustomName="" OriginalAttribute="" Attribute="Pan" Emitter="Emitter" ColorSpace="Space" DMXProfile="Profile"/></LogicalChannel></DMXChannel><DMXChannel DMXBreak="1" Offset="11,12" Highlight="None" Geometry="Base" InitialFunction="Base_Tilt.Tilt.Fourth"><LogicalChannel Attribute="Tilt" Snap="Yes" Master="Group" MibFade="0.000000" DMXChangeTimeLimit="0.000000"><ChannelFunction Name="Fourth" Default="4674/2" DMXFrom="0/2" PhysicalFrom="0.000000" PhysicalTo="0.000000" RealFade="0.000000" RealAcceleration="0.000000" Min="0.000000" Max="0.000000" CustomName="" OriginalAttribute="" Attribute="Tilt" Wheel="Wheel" Filter="Filter" Gamut="Gamut"/></LogicalChannel></DMXChannel></DMXChannels><Relations/><FTMacros/></DMXMode></DMXModes><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf3_3[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups><FeatureGroup Name="Control" Pretty="C"><Feature Name="Control"/></FeatureGroup></FeatureGroups><Attributes><Attribute Name="Dimmer" Pretty="Dimmer" Feature="Control.Control" PhysicalUnit="None"/><Attribute Name="Pan" Pretty="Pan" Feature="Control.Control" PhysicalUnit="None"/><Attribute Name="Tilt" Pretty="Tilt" Feature="Control.Control" PhysicalUnit="None"/></Attributes></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters/><Emitters/><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries><Geometry Name="Base" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"><Geometry Name="Head" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"/></Geometry></Geometries><DMXModes><DMXMode Name="Mode" Description="" Geometry="Base"><DMXChannels><DMXChannel DMXBreak="1" Offset="1" Highlight="None" Geometry="Head"><LogicalChannel Attribute="Dimmer" Snap="No" Master="None" MibFade="0.000000" DMXChangeTimeLimit="0.000000"><ChannelFunction Name="A" Default="0/1" DMXFrom="0/1" PhysicalFrom="0.000000" PhysicalTo="1.000000" RealFade="0.000000" RealAcceleration="0.000000" Min="0.000000" Max="1.000000" CustomName="" OriginalAttribute="" Attribute="Dimmer"/><ChannelFunction Name="B" Default="0/1" DMXFrom="100/1" PhysicalFrom="0.000000" PhysicalTo="1.000000" RealFade="0.000000" RealAcceleration="0.000000" Min="0.000000" Max="1.000000" CustomName="" OriginalAttribute="" Attribute="Dimmer"/></LogicalChannel></DMXChannel><DMXChannel DMXBreak="1" Offset="11,12" Highlight="None" Geometry="Base"><LogicalChannel Attribute="Pan" Snap="No" Master="None" MibFade="0.000000" DMXChangeTimeLimit="0.000000"><ChannelFunction Name="C" Default="0/2" DMXFrom="0/2" PhysicalFrom="0.000000" PhysicalTo="1.000000" RealFade="0.000000" RealAcceleration="0.000000" Min="0.000000" Max="1.000000" CustomName="" OriginalAttribute="" Attribute="Pan"/></LogicalChannel></DMXChannel></DMXChannels><Relations><Relation Name="Rel A" Master="Head_Dimmer" Follower="Head_Dimmer.Dimmer.A" Type="Multiply"/><Relation Name="Rel B" Master="Base_Pan" Follower="Head_Dimmer.Dimmer.B" Type="Override"/><Relation Name="Rel C" Master="Head_Dimmer" Follower="Base_Pan.Pan.C" Type="Multiply"/></Relations><FTMacros><FTMacro Name="Macro A"><MacroDMX><MacroDMXStep Duration="0.000000"><MacroDMXValue Value="3/1" DMXChannel="Head_Dimmer"/><MacroDMXValue Value="4618/2" DMXChannel="Base_Pan"/></MacroDMXStep><MacroDMXStep Duration="0.000000"><MacroDMXValue Value="17/1" DMXChannel="Head_Dimmer"/><MacroDMXValue Value="4632/2" DMXChannel="Base_Pan"/></MacroDMXStep></MacroDMX><MacroVisual><MacroVisualStep Duration="0.000000" Fade="0.000000" Delay="0.000000"><MacroVisualValue Value="31/1" ChannelFunction="Head_Dimmer.Dimmer.A"/><MacroVisualValue Value="4646/2" ChannelFunction="Base_Pan.Pan.C"/></MacroVisualStep><MacroVisualStep Duration="0.000000" Fade="0.000000" Delay="0.000000"><MacroVisualValue Value="45/1" ChannelFunction="Head_Dimmer.Dimmer.A"/><MacroVisualValue Value="4660/2" ChannelFunction="Base_Pan.Pan.C"/></MacroVisualStep></MacroVisual></FTMacro><FTMacro Name="Macro B" ChannelFunction="Head_Dimmer.Dimmer.B"><MacroVisual><MacroVisualStep Duration="0.000000" Fade="0.000000" Delay="0.000000"><MacroVisualValue Value="4667/2" ChannelFunction="Base_Pan.Pan.C"/><MacroVisualValue Value="66/1" ChannelFunction="Head_Dimmer.Dimmer.A"/></MacroVisualStep><MacroVisualStep Duration="0.000000" Fade="0.000000" Delay="0.000000"><MacroVisualValue Value="4681/2" ChannelFunction="Base_Pan.Pan.C"/><MacroVisualValue Value="80/1" ChannelFunction="Head_Dimmer.Dimmer.A"/></MacroVisualStep></MacroVisual></FTMacro></FTMacros></DMXMode></DMXModes><Revisions/><FTPresets/><Protocols/></FixtureType></GDTF>)DOC";
static const char gdtf4_0[] = R"DOC(<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="Fixture" ShortName="" LongName="" Manufacturer="Maker" Description="" FixtureTypeID="01000000-0200-0000-0300-000004000000" Thumbnail="" ThumbnailOffsetX="0" ThumbnailOffsetY="0" CanHaveChildren="No" RefFT=""><AttributeDefinitions><ActivationGroups/><FeatureGroups/><Attributes/></AttributeDefinitions><Wheels/><PhysicalDescriptions><ColorSpace Name="" Mode="sRGB"/><AdditionalColorSpaces/><Gamuts/><Filters/><Emitters/><DMXProfiles/><CRIs/><Connectors/><Properties><OperatingTemperature Low="0.000000" High="40.000000"/><Weight Value="0.000000"/><LegHeight Value="0.000000"/></Properties></PhysicalDescriptions><Models/><Geometries><Geometry Name="Base" Position="{1.000000,0.000000,0.000000,0.000000}{0.000000,1.000000,0.000000,0.000000}{0.000000,0.000000,1.000000,0.000000}{0,0,0,1}"/></Geometries><DMXModes><DMXMode Name="Mode A" Description="" Geometry="Base"><DMXChannels/><Relations/><FTMacros/></DMXMode><DMXMode Name="Mode B" Description="" Geometry="Base"><DMXChannels/><Relations/><FTMacros/></DMXMode></DMXModes><Revisions/><FTPresets/><Protocols><Art-Net><Map Key="8" Value="9"/><Map Key="10" Value="11"/></Art-Net><sACN><Map Key="12" Value="13"/><Map Key="14" Value="15"/></sACN></Protocols></FixtureType></GDTF>)DOC";
static const char* const kDocs[] = {gdtf1_0, gdtf1_1, gdtf1_2, gdtf1_3, gdtf1_4, gdtf1_5, gdtf2_0, gdtf2_1, gdtf2_2, gdtf3_0, gdtf3_3, gdtf4_0};
