"""What the standard (RP66 V1 chapter 5/6) and the user guide say about each object type.

kind -> (set type, logical record type, {keyword: (standard label, value kind)})

Value kinds: T text; TM text list; I identifier; N number; NM number list; NMD nested number list; N:CODE number with the
representation code fixed by the standard; INT integer without fixed code; D dimension list (UVARI); S status; DT date-time;
DN date-time or number; R:SET / RM:SET reference(s) (SET '*' = any); RT reference to LONG-NAME or text; P property
indicators; U units; XM / XMD number-or-text list; ENC 0/1 flag.
"""

KINDS = {
    'axis': ('AXIS', 2, {'axis_id': ('AXIS-ID', 'I'), 'coordinates': ('COORDINATES', 'XM'), 'spacing': ('SPACING', 'N')}),
    'calibration': ('CALIBRATION', 5, {
        'calibrated_channels': ('CALIBRATED-CHANNELS', 'RM:CHANNEL'),
        'uncalibrated_channels': ('UNCALIBRATED-CHANNELS', 'RM:CHANNEL'),
        'coefficients': ('COEFFICIENTS', 'RM:CALIBRATION-COEFFICIENT'),
        'measurements': ('MEASUREMENTS', 'RM:CALIBRATION-MEASUREMENT'),
        'parameters': ('PARAMETERS', 'RM:PARAMETER'), 'method': ('METHOD', 'I')}),
    'calibration_coefficient': ('CALIBRATION-COEFFICIENT', 5, {
        'label': ('LABEL', 'I'), 'coefficients': ('COEFFICIENTS', 'NM'), 'references': ('REFERENCES', 'NM'),
        'plus_tolerances': ('PLUS-TOLERANCES', 'NM'), 'minus_tolerances': ('MINUS-TOLERANCES', 'NM')}),
    'calibration_measurement': ('CALIBRATION-MEASUREMENT', 5, {
        'phase': ('PHASE', 'I'), 'measurement_source': ('MEASUREMENT-SOURCE', 'R:*'), 'measurement_type': ('TYPE', 'I'),
        'dimension': ('DIMENSION', 'D'), 'axis': ('AXIS', 'RM:AXIS'), 'measurement': ('MEASUREMENT', 'NMD'),
        'sample_count': ('SAMPLE-COUNT', 'INT'), 'maximum_deviation': ('MAXIMUM-DEVIATION', 'NMD'),
        'standard_deviation': ('STANDARD-DEVIATION', 'NMD'), 'begin_time': ('BEGIN-TIME', 'DN'),
        'duration': ('DURATION', 'N'), 'reference': ('REFERENCE', 'NMD'), 'standard': ('STANDARD', 'NMD'),
        'plus_tolerance': ('PLUS-TOLERANCE', 'NMD'), 'minus_tolerance': ('MINUS-TOLERANCE', 'NMD')}),
    'channel': ('CHANNEL', 3, {
        'long_name': ('LONG-NAME', 'RT'), 'properties': ('PROPERTIES', 'P'), 'units': ('UNITS', 'U'),
        'dimension': ('DIMENSION', 'D'), 'axis': ('AXIS', 'RM:AXIS'), 'element_limit': ('ELEMENT-LIMIT', 'D'),
        'source': ('SOURCE', 'R:*'), 'minimum_value': ('MINIMUM-VALUE', 'NM'), 'maximum_value': ('MAXIMUM-VALUE', 'NM')}),
    'comment': ('COMMENT', 6, {'text': ('TEXT', 'TM')}),
    'computation': ('COMPUTATION', 5, {
        'long_name': ('LONG-NAME', 'RT'), 'properties': ('PROPERTIES', 'P'), 'dimension': ('DIMENSION', 'D'),
        'axis': ('AXIS', 'RM:AXIS'), 'zones': ('ZONES', 'RM:ZONE'), 'values': ('VALUES', 'NMD'), 'source': ('SOURCE', 'R:*')}),
    'equipment': ('EQUIPMENT', 5, {
        'trademark_name': ('TRADEMARK-NAME', 'T'), 'status': ('STATUS', 'S'), 'eq_type': ('TYPE', 'I'),
        'serial_number': ('SERIAL-NUMBER', 'I'), 'location': ('LOCATION', 'I'), 'height': ('HEIGHT', 'N'),
        'length': ('LENGTH', 'N'), 'minimum_diameter': ('MINIMUM-DIAMETER', 'N'),
        'maximum_diameter': ('MAXIMUM-DIAMETER', 'N'), 'volume': ('VOLUME', 'N'), 'weight': ('WEIGHT', 'N'),
        'hole_size': ('HOLE-SIZE', 'N'), 'pressure': ('PRESSURE', 'N'), 'temperature': ('TEMPERATURE', 'N'),
        'vertical_depth': ('VERTICAL-DEPTH', 'N'), 'radial_drift': ('RADIAL-DRIFT', 'N'),
        'angular_drift': ('ANGULAR-DRIFT', 'N')}),
    'frame': ('FRAME', 4, {
        'channels': ('CHANNELS', 'RM:CHANNEL'), 'description': ('DESCRIPTION', 'T'), 'index_type': ('INDEX-TYPE', 'I'),
        'direction': ('DIRECTION', 'I'), 'spacing': ('SPACING', 'N'), 'encrypted': ('ENCRYPTED', 'ENC'),
        'index_min': ('INDEX-MIN', 'N'), 'index_max': ('INDEX-MAX', 'N')}),
    'group': ('GROUP', 5, {
        'description': ('DESCRIPTION', 'T'), 'object_list': ('OBJECT-LIST', 'RM:*'), 'group_list': ('GROUP-LIST', 'RM:GROUP')}),
    'long_name': ('LONG-NAME', 9, {
        'general_modifier': ('GENERAL-MODIFIER', 'TM'), 'quantity': ('QUANTITY', 'T'),
        'quantity_modifier': ('QUANTITY-MODIFIER', 'TM'), 'altered_form': ('ALTERED-FORM', 'T'), 'entity': ('ENTITY', 'T'),
        'entity_modifier': ('ENTITY-MODIFIER', 'TM'), 'entity_number': ('ENTITY-NUMBER', 'T'),
        'entity_part': ('ENTITY-PART', 'T'), 'entity_part_number': ('ENTITY-PART-NUMBER', 'T'),
        'generic_source': ('GENERIC-SOURCE', 'T'), 'source_part': ('SOURCE-PART', 'TM'),
        'source_part_number': ('SOURCE-PART-NUMBER', 'TM'), 'conditions': ('CONDITIONS', 'TM'),
        'standard_symbol': ('STANDARD-SYMBOL', 'T'), 'private_symbol': ('PRIVATE-SYMBOL', 'T')}),
    'message': ('MESSAGE', 6, {
        'message_type': ('TYPE', 'I'), 'time': ('TIME', 'DN'), 'borehole_drift': ('BOREHOLE-DRIFT', 'N'),
        'vertical_depth': ('VERTICAL-DEPTH', 'N'), 'radial_drift': ('RADIAL-DRIFT', 'N'),
        'angular_drift': ('ANGULAR-DRIFT', 'N'), 'text': ('TEXT', 'TM')}),
    'no_format': ('NO-FORMAT', 8, {'consumer_name': ('CONSUMER-NAME', 'I'), 'description': ('DESCRIPTION', 'T')}),
    'origin': ('ORIGIN', 1, {
        'file_set_number': ('FILE-SET-NUMBER', 'N:UVARI'), 'file_set_name': ('FILE-SET-NAME', 'I'),
        'file_number': ('FILE-NUMBER', 'N:UVARI'), 'file_type': ('FILE-TYPE', 'I'), 'product': ('PRODUCT', 'T'),
        'version': ('VERSION', 'T'), 'programs': ('PROGRAMS', 'TM'), 'creation_time': ('CREATION-TIME', 'DT'),
        'order_number': ('ORDER-NUMBER', 'T'), 'descent_number': ('DESCENT-NUMBER', 'N:UNORM'),
        'run_number': ('RUN-NUMBER', 'N:UNORM'), 'well_id': ('WELL-ID', 'T'), 'well_name': ('WELL-NAME', 'T'),
        'field_name': ('FIELD-NAME', 'T'), 'producer_code': ('PRODUCER-CODE', 'N:UNORM'),
        'producer_name': ('PRODUCER-NAME', 'T'), 'company': ('COMPANY', 'T'), 'name_space_name': ('NAME-SPACE-NAME', 'I'),
        'name_space_version': ('NAME-SPACE-VERSION', 'N:UVARI')}),
    'parameter': ('PARAMETER', 5, {
        'long_name': ('LONG-NAME', 'RT'), 'dimension': ('DIMENSION', 'D'), 'axis': ('AXIS', 'RM:AXIS'),
        'zones': ('ZONES', 'RM:ZONE'), 'values': ('VALUES', 'XMD')}),
    'path': ('PATH', 4, {
        'frame_type': ('FRAME-TYPE', 'R:FRAME'), 'well_reference_point': ('WELL-REFERENCE-POINT', 'R:WELL-REFERENCE'),
        'value': ('VALUE', 'RM:CHANNEL'), 'borehole_depth': ('BOREHOLE-DEPTH', 'N'),
        'vertical_depth': ('VERTICAL-DEPTH', 'N'), 'radial_drift': ('RADIAL-DRIFT', 'N'),
        'angular_drift': ('ANGULAR-DRIFT', 'N'), 'time': ('TIME', 'N'), 'depth_offset': ('DEPTH-OFFSET', 'N'),
        'measure_point_offset': ('MEASURE-POINT-OFFSET', 'N'), 'tool_zero_offset': ('TOOL-ZERO-OFFSET', 'N')}),
    'process': ('PROCESS', 5, {
        'description': ('DESCRIPTION', 'T'), 'trademark_name': ('TRADEMARK-NAME', 'T'), 'version': ('VERSION', 'T'),
        'properties': ('PROPERTIES', 'P'), 'status': ('STATUS', 'I'), 'input_channels': ('INPUT-CHANNELS', 'RM:CHANNEL'),
        'output_channels': ('OUTPUT-CHANNELS', 'RM:CHANNEL'),
        'input_computations': ('INPUT-COMPUTATIONS', 'RM:COMPUTATION'),
        'output_computations': ('OUTPUT-COMPUTATIONS', 'RM:COMPUTATION'), 'parameters': ('PARAMETERS', 'RM:PARAMETER'),
        'comments': ('COMMENTS', 'TM')}),
    'splice': ('SPLICE', 5, {'output_channel': ('OUTPUT-CHANNEL', 'R:CHANNEL'),
                             'input_channels': ('INPUT-CHANNELS', 'RM:CHANNEL'), 'zones': ('ZONES', 'RM:ZONE')}),
    'tool': ('TOOL', 5, {
        'description': ('DESCRIPTION', 'T'), 'trademark_name': ('TRADEMARK-NAME', 'T'), 'generic_name': ('GENERIC-NAME', 'T'),
        'parts': ('PARTS', 'RM:EQUIPMENT'), 'status': ('STATUS', 'S'), 'channels': ('CHANNELS', 'RM:CHANNEL'),
        'parameters': ('PARAMETERS', 'RM:PARAMETER')}),
    'well_reference_point': ('WELL-REFERENCE', 1, {
        'permanent_datum': ('PERMANENT-DATUM', 'T'), 'vertical_zero': ('VERTICAL-ZERO', 'T'),
        'permanent_datum_elevation': ('PERMANENT-DATUM-ELEVATION', 'N'),
        'above_permanent_datum': ('ABOVE-PERMANENT-DATUM', 'N'), 'magnetic_declination': ('MAGNETIC-DECLINATION', 'N'),
        'coordinate_1_name': ('COORDINATE-1-NAME', 'T'), 'coordinate_1_value': ('COORDINATE-1-VALUE', 'N'),
        'coordinate_2_name': ('COORDINATE-2-NAME', 'T'), 'coordinate_2_value': ('COORDINATE-2-VALUE', 'N'),
        'coordinate_3_name': ('COORDINATE-3-NAME', 'T'), 'coordinate_3_value': ('COORDINATE-3-VALUE', 'N')}),
    'zone': ('ZONE', 5, {'description': ('DESCRIPTION', 'T'), 'domain': ('DOMAIN', 'I'), 'maximum': ('MAXIMUM', 'DN'),
                         'minimum': ('MINIMUM', 'DN')}),
}

SETTYPES = {v[0]: (k, v[1]) for k, v in KINDS.items()}
# labels dliswriter emits without a keyword for them (value supplied by the library)
EXTRA_LABELS = {'CHANNEL': {'REPRESENTATION-CODE'}, 'ORIGIN': {'FILE-ID'}, 'GROUP': {'OBJECT-TYPE'}}
# real attribute name on the item object, where it is not the keyword (for later .value/.units assignment)
ATTR_NAME = {('equipment', 'eq_type'): '_type', ('message', 'message_type'): '_type',
             ('calibration_measurement', 'measurement_type'): 'type'}


def labels(kind):
    st, _, at = KINDS[kind]
    return {lab for lab, _ in at.values()} | EXTRA_LABELS.get(st, set())
