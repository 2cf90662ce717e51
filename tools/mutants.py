P, T, A, D, R, TV, C, F, G = "src/predictor.rs", "src/tile.rs", "src/array.rs", "src/data_type.rs", "src/metadata/reader.rs", "src/tag_value.rs", "src/metadata/cache.rs", "src/metadata/fetch.rs", "src/geo/geo_key_directory.rs"
I, RD, TG, DEC, ND, TF = "src/ifd.rs", "src/reader.rs", "src/tags.rs", "src/decoder.rs", "src/ndarray.rs", "src/tiff.rs"
MUTANTS = [
 # predictors and byte order
 ("hdiff-16-distance", "C01", [(P, "row[i - 2 * samples..][..2]", "row[i - 2..][..2]")]),
 ("hdiff-before-swap", "C01", [(P, "    fix_endianness(&mut buffer, endianness, bits_per_sample);\n\n    for row in buffer.chunks_mut(row_stride) {\n        rev_hpredict_row(row, bits_per_sample, samples);\n    }\n", "    for row in buffer.chunks_mut(row_stride) {\n        rev_hpredict_row(row, bits_per_sample, samples);\n    }\n    fix_endianness(&mut buffer, endianness, bits_per_sample);\n")]),
 ("hdiff-saturating", "C01", [(P, "row[i] = row[i].wrapping_add(row[i - samples]);", "row[i] = row[i].saturating_add(row[i - samples]);")]),
 ("hdiff-last-sample", "C01", [(P, "for i in (samples * 4..row.len()).step_by(4) {", "for i in (samples * 4..row.len() - 4).step_by(4) {")]),
 ("hdiff-row-stride", "C01", [(P, "let row_stride = tile_width * samples * bytes_per_sample;\n    let word_size", "let row_stride = tile_width * bytes_per_sample;\n    let word_size")]),
 ("hdiff-12bit", "C01", [(P, "        9..=16 => {\n            for i in (samples", "        10..=16 => {\n            for i in (samples"), (P, "        0..=8 => {\n            for i in samples", "        0..=9 => {\n            for i in samples")]),
 ("float-f16-distance", "C02", [(P, "fn rev_predict_f16(input: &mut [u8], output: &mut [u8], samples: usize) {\n    for i in samples..input.len() {\n        input[i] = input[i].wrapping_add(input[i - samples]);", "fn rev_predict_f16(input: &mut [u8], output: &mut [u8], samples: usize) {\n    for i in samples..input.len() {\n        input[i] = input[i].wrapping_add(input[i - 1]);")]),
 ("float-f32-planes", "C02", [(P, "input[input.len() / 4 * 2 + i]", "input[input.len() / 2 + i - 1]")]),
 ("float-f64-plane-swap", "C02", [(P, "input[input.len() / 8 * 5 + i],\n            input[input.len() / 8 * 6 + i],", "input[input.len() / 8 * 6 + i],\n            input[input.len() / 8 * 5 + i],")]),
 ("float-f64-carry", "C02", [(P, "fn rev_predict_f64(input: &mut [u8], output: &mut [u8], samples: usize) {\n    for i in samples..input.len() {", "fn rev_predict_f64(input: &mut [u8], output: &mut [u8], samples: usize) {\n    for i in samples..input.len().min(1 << 16) {")]),
 ("order-17-24", "C03", [(P, "            17..=32 => buffer.chunks_exact_mut(4).for_each(|v| {\n                v.copy_from_slice(&u32::from_be", "            25..=32 => buffer.chunks_exact_mut(4).for_each(|v| {\n                v.copy_from_slice(&u32::from_be")]),
 ("order-64-as-32", "C03", [(P, "_ => buffer.chunks_exact_mut(8).for_each(|v| {\n                v.copy_from_slice(&u64::from_be_bytes((*v).try_into().unwrap()).to_ne_bytes())", "_ => buffer.chunks_exact_mut(8).for_each(|v| {\n                v.copy_from_slice(&u64::from_be_bytes((*v).try_into().unwrap()).rotate_left(32).to_ne_bytes())")]),
 ("order-webp", "C03", [(T, "Compression::ModernJPEG | Compression::JPEG2k | Compression::LERC => {", "Compression::ModernJPEG | Compression::JPEG2k => {")]),
 # arrays
 ("typed-i16-shift", "C04", [(A, ".map(|b| i16::from_ne_bytes([b[0], b[1]]))", ".map(|b| i16::from_be_bytes([b[0], b[1]]))")]),
 ("typed-len-check", "C04", [(A, "if typed_data.len() != expected_len {", "if typed_data.len() < expected_len {")]),
 ("typed-f64-modulus", "C04", [(A, "if !data.len().is_multiple_of(8) {\n                    return Err(AsyncTiffError::General(format!(\n                        \"Data length {} is not divisible by Float64", "if !data.len().is_multiple_of(4) {\n                    return Err(AsyncTiffError::General(format!(\n                        \"Data length {} is not divisible by Float64")]),
 ("shape-planar", "C04", [(T, "[samples_per_pixel, height, width]", "[samples_per_pixel, width, height]")]),
 ("as-ref-empty", "C04", [(A, "TypedArray::Int64(data) => cast_slice(data),", "TypedArray::Int64(data) => cast_slice(&data[..data.len() / 2 * 2]),")]),
 ("bits-lsb", "C05", [(A, "let bit_idx = 7 - (i % 8);", "let bit_idx = i % 8;")]),
 ("bits-required", "C05", [(A, "let required_bytes = expected_len.div_ceil(8);", "let required_bytes = expected_len.div_ceil(8) + 1;")]),
 ("dtype-zip", "C06", [(D, "if !bits_per_sample.iter().all(|b| b == first_bits) {", "if !bits_per_sample.iter().zip(sample_format).all(|(b, _)| b == first_bits) {")]),
 ("dtype-last", "C06", [(D, "if !sample_format.iter().all(|f| f == first_format) {", "if sample_format.last() != Some(first_format) {")]),
 ("dtype-i64", "C06", [(D, "(SampleFormat::Int, 64) => Some(DataType::Int64),", "(SampleFormat::Int, 64) => Some(DataType::UInt64),")]),
 ("dtype-f16", "C06", [(D, "(SampleFormat::Float, 32) => Some(DataType::Float32),", "(SampleFormat::Float, 16 | 32) => Some(DataType::Float32),")]),
 # cache
 ("cache-contains", "C07", [(C, "range.end <= self.len", "range.start <= self.len")]),
 ("cache-lock", "C07", [(C, "        let bytes = self.inner.fetch(fetch_range).await?;\n\n        // Now append safely\n", "        drop(cache);\n        let bytes = self.inner.fetch(fetch_range).await?;\n        let mut cache = self.cache.lock().await;\n\n        // Now append safely\n")]),
 ("cache-needed", "C07", [(C, "let needed = range.end.saturating_sub(start_len);", "let needed = range.end - range.start;")]),
 ("cache-partial", "C07", [(C, "            if remaining.end <= current_buf_len {\n                break;\n            }\n            remaining.end -= current_buf_len;", "            if remaining.end <= current_buf_len {\n                break;\n            }\n            remaining.end -= length as u64;")]),
 ("cache-fetch-from-range", "C08", [(C, "let fetch_range = start_len..start_len.saturating_add(fetch_size);", "let fetch_range = start_len.min(range.start)..start_len.saturating_add(fetch_size);")]),
 ("cache-growth", "C08", [(C, "(existing_len as f64 * self.multiplier).round() as u64", "(existing_len as f64 * self.multiplier.min(1.0)).round() as u64")]),
 ("cache-small", "C08", [(C, "self.next_fetch_size(start_len).max(needed)", "needed.max(self.initial)")]),
 # header, chain, entries
 ("head-offset-size", "C09", [(R, "if cursor.read_u16().await? != 8 {", "if cursor.read_u16().await? > 8 {")]),
 ("head-reserved", "C09", [(R, "                if cursor.read_u16().await? != 0 {", "                if cursor.read_u16().await? & 0xff != 0 {")]),
 ("head-43-as-classic", "C09", [(R, "            42 => false,", "            0 | 42 => false,")]),
 ("chain-next-pos", "C10", [(R, "            .and_then(|size| size.checked_add(self.tag_count_byte_size))", "            .and_then(|size| size.checked_add(if tag_idx == 0 { self.tag_count_byte_size } else { self.tag_count_byte_size.min(8) }))"), (R, "let tag_count_byte_size = if bigtiff { 8 } else { 2 };", "let tag_count_byte_size = if bigtiff { 8 } else { 4 };")]),
 ("chain-count-trunc", "C10", [(R, "            cursor.read_u64().await?\n        } else {\n            cursor.read_u16().await?.into()\n        };\n\n        Ok(Self {\n            endianness,\n            bigtiff,\n            ifd_entry_byte_size,\n            tag_count,", "            cursor.read_u64().await? as u32 as u64\n        } else {\n            cursor.read_u16().await?.into()\n        };\n\n        Ok(Self {\n            endianness,\n            bigtiff,\n            ifd_entry_byte_size,\n            tag_count,")]),
 ("chain-cycle-self", "C10", [(R, "if !visited.insert(offset) {", "if !visited.insert(offset) && visited.len() > 1 {")]),
 ("chain-drop-last", "C10", [(R, "            ifds.push(ifd);\n        }\n        Ok(ifds)", "            ifds.push(ifd);\n            if ifds.len() == 65535 { break; }\n        }\n        Ok(ifds)")]),
 ("chain-dup-tag", "C10", [(R, "            tags.insert(tag, value);\n        }\n        ImageFileDirectory", "            tags.entry(tag).or_insert(value);\n        }\n        ImageFileDirectory")]),
 ("entry-inline-8", "C11", [(R, "if value_byte_length <= 4 || bigtiff && value_byte_length <= 8 {", "if value_byte_length <= 4 || bigtiff && value_byte_length < 8 {")]),
 ("entry-ifd8-classic", "C11", [(R, "                cursor.seek(offset as _);\n                TagValue::IfdBig(cursor.read_u64().await?)", "                TagValue::IfdBig(offset as u64)")]),
 ("entry-srational", "C11", [(R, "                let numerator = cursor.read_i32().await?;\n                let denominator = cursor.read_i32().await?;\n                TagValue::SRational(numerator, denominator)", "                let numerator = cursor.read_i32().await?;\n                let denominator = cursor.read_u32().await?.min(i32::MAX as u32) as i32;\n                TagValue::SRational(numerator, denominator)")]),
 ("entry-offset-32", "C11", [(R, "    let offset = if bigtiff {\n        cursor.read_u64().await?\n    } else {\n        cursor.read_u32().await?.into()\n    };\n    cursor.seek(offset);", "    let offset = if bigtiff {\n        cursor.read_u64().await? & u32::MAX as u64\n    } else {\n        cursor.read_u32().await?.into()\n    };\n    cursor.seek(offset);")]),
 ("entry-sshort-list", "C11", [(R, "                    v.push(TagValue::SignedShort(data.read_i16()?));", "                    v.push(TagValue::SignedShort(data.read_u16()?.min(i16::MAX as u16) as i16));")]),
 ("entry-float-inline-ifd", "C11", [(R, "Type::IFD => TagValue::Ifd(data.read_u32()?),", "Type::IFD => TagValue::Unsigned(data.read_u32()?),")]),
 ("entry-undefined-size", "C11", [(R, "Type::SHORT | Type::SSHORT => 2,", "Type::SHORT => 2,\n        Type::SSHORT => 4,")]),
 # conversions
 ("conv-i16-wrap", "C12", [(TV, "SignedBig(val) => Ok(i16::try_from(val)?),", "SignedBig(val) => Ok(val as i16),")]),
 ("conv-u32-ifdbig", "C12", [(TV, "IfdBig(val) => Ok(vec![u32::try_from(val)?]),", "IfdBig(val) => Ok(vec![u32::try_from(val).unwrap_or(u32::MAX)]),")]),
 ("conv-srational-swap", "C12", [(TV, "                            new_vec.push(i32::try_from(numerator)?);\n                            new_vec.push(i32::try_from(denominator)?);", "                            new_vec.push(i32::try_from(denominator)?);\n                            new_vec.push(i32::try_from(numerator)?);")]),
 ("conv-u64vec-rational", "C12", [(TV, "RationalBig(numerator, denominator) => Ok(vec![numerator, denominator]),\n            Ifd(val) => Ok(vec![val.into()]),", "RationalBig(numerator, _) => Ok(vec![numerator]),\n            Ifd(val) => Ok(vec![val.into()]),")]),
 ("conv-f64vec-skip", "C12", [(TV, "                    new_vec.push(v.into_f64()?)", "                    if let Ok(v) = v.into_f64() { new_vec.push(v) }")]),
 ("conv-ascii-u64", "C12", [(TV, "Ascii(val) => Ok(val.chars().map(u32::from).map(u64::from).collect()),", "Ascii(val) => Ok(val.bytes().map(u64::from).collect()),")]),
 # fields
 ("field-minmax", "C13", [(I, "Tag::MaxSampleValue => max_sample_value =", "Tag::MaxSampleValue => min_sample_value =")]),
 ("field-resolution", "C13", [(I, "TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),", "TagValue::Rational(n, d) => y_resolution = Some((n / d.max(1)) as f64),")]),
 ("field-res-f32", "C13", [(I, "TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),", "TagValue::Rational(n, d) => x_resolution = Some((n as f32 / d as f32) as f64),")]),
 ("field-planar-default", "C13", [(I, "        } else {\n            PlanarConfiguration::Chunky\n        };", "        } else {\n            PlanarConfiguration::Planar\n        };")]),
 ("field-sample-format-default", "C13", [(I, ".unwrap_or(vec![SampleFormat::Uint; samples_per_pixel as _]),", ".unwrap_or(vec![SampleFormat::Uint; 1]),")]),
 ("field-other-tags", "C13", [(I, "                _ => {\n                    other_tags.insert(tag, value);\n                }", "                Tag::Unknown(_) => {\n                    other_tags.insert(tag, value);\n                }\n                _ => {}")]),
 ("field-accessor", "C13", [(I, "    pub fn model_tiepoint(&self) -> Option<&[f64]> {\n        self.model_tiepoint.as_deref()", "    pub fn model_tiepoint(&self) -> Option<&[f64]> {\n        self.model_tiepoint.as_deref().filter(|t| t.len() >= 6)")]),
 ("field-document-name", "C13", [(I, "const DOCUMENT_NAME: u16 = 269;", "const DOCUMENT_NAME: u16 = 270;")]),
 # geo
 ("geo-pipe", "C14", [(I, "if s.ends_with('|') {\n                        s = &s[0..s.len() - 1];", "if s.ends_with('|') {\n                        s = &s[0..s.find('|').unwrap()];")]),
 ("geo-double-count", "C14", [(I, "let value = if count == 1 {\n                        TagValue::Double", "let value = if count <= 1 || values.len() == 2 && values[0] == values[1] {\n                        TagValue::Double")]),
 ("geo-revision", "C14", [(I, "if key_revision != 1 {", "if key_revision == 0 {")]),
 ("geo-number", "C14", [(I, "for _ in 0..number_of_keys {", "for _ in 0..number_of_keys.min(64) {")]),
 # tiles
 ("tile-count-round", "C15", [(I, "let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();", "let y_count = (self.image_height as f32 / self.tile_height? as f32).ceil();")]),
 ("tile-bounds", "C15", [(I, "if x >= tiles_per_row || y >= tiles_per_col {", "if x > tiles_per_row || y >= tiles_per_col {")]),
 ("tile-end", "C15", [(I, "let end = offset.checked_add(byte_count)?;", "let end = offset.saturating_add(byte_count);")]),
 ("tiles-order", "C16", [(I, "            .zip(xy)\n            .map(|(buffer, (x, y))| buffer.into_tile(*x, *y, self))", "            .zip(xy)\n            .map(|(buffer, (x, y))| buffer.into_tile(*y, *x, self))")]),
 ("tiles-bands", "C16", [(I, "flat_iter.by_ref().take(n).collect();", "flat_iter.by_ref().take(n.max(1)).collect();")]),
 ("tiles-empty", "C16", [(I, "PlanarConfiguration::Planar => Some(TilesByteRanges::Planar(vec![])),\n            };", "PlanarConfiguration::Planar => None,\n            };")]),
 ("decode-height", "C04", [(I, "height: ifd.tile_height.unwrap_or(ifd.image_height),", "height: ifd.tile_height.unwrap_or(ifd.image_height).min(ifd.image_height),")]),
 ("decode-planar-order", "C17", [(T, "for band_data in band_bytes {", "for band_data in band_bytes.iter().rev() {")]),
 ("decode-bits", "C17", [(I, "bits_per_sample: ifd.bits_per_sample[0],", "bits_per_sample: *ifd.bits_per_sample.iter().max().unwrap(),")]),
 ("decode-predictor-tables", "C17", [(T, "                        1,\n                        bits_per_sample,\n                        self.lerc_parameters.as_deref(),", "                        1,\n                        bits_per_sample,\n                        None,")]),
 # readers
 ("reader-http-end", "C18", [(RD, "range.start, range.end - 1);", "range.start, range.end);")]),
 ("reader-box", "C18", [(RD, "        self.as_ref().get_byte_ranges(ranges).await\n    }\n}\n\n/// This allows Arc", "        let mut ranges = ranges;\n        ranges.sort_by_key(|r| r.start);\n        self.as_ref().get_byte_ranges(ranges).await\n    }\n}\n\n/// This allows Arc")]),
 ("reader-tokio-short", "C18", [(RD, "if read != to_read {", "if read == 0 && to_read != 0 {")]),
 ("reader-object-trunc", "C18", [(RD, "let range = range.start as _..range.end as _;", "let range = range.start as u32 as _..range.end as u32 as _;")]),
 ("reader-default-dedup", "C18", [(RD, "        for range in ranges.into_iter() {\n            let data", "        for range in ranges.into_iter().filter(|r| !r.is_empty()) {\n            let data")]),
 ("endian-i64", "C11", [(RD, "Endianness::BigEndian => Ok(self.reader.read_i64::<BigEndian>()?),", "Endianness::BigEndian => Ok(self.reader.read_i64::<LittleEndian>()?),")]),
 ("tiff-size-strips", "C20", [(TF, "                ifd.tile_offsets()\n                    .into_iter()\n                    .chain(ifd.strip_offsets())", "                ifd.tile_offsets()\n                    .or(ifd.strip_offsets())\n                    .into_iter()")]),
 ("tiff-size-first", "C20", [(TF, "        self.ifds\n            .iter()\n            .flat_map(|ifd| {\n                ifd.tile_offsets()", "        self.ifds\n            .iter()\n            .take(64)\n            .flat_map(|ifd| {\n                ifd.tile_offsets()")]),
 ("nd-arm", "C21", [(ND, "TypedArray::Int16(data) => Ok(NdArray::Int16(\n                Array3::from_shape_vec(value.shape, data)", "TypedArray::Int16(data) => Ok(NdArray::Int16(\n                Array3::from_shape_vec([value.shape[0], value.shape[2], value.shape[1]], data)")]),
 ("codec-webp-alpha", "C22", [(DEC, "rgba.push(255); // opaque alpha", "rgba.push(chunk[0] | 254);")]),
 ("codec-lerc-zstd", "C22", [(DEC, "            Some(2) => {\n                let mut decoder = zstd", "            Some(3) => {\n                let mut decoder = zstd")]),
 ("codec-jpeg-tables", "C22", [(DEC, "reader.read_exact(&mut [0; 2])?;", "reader.read_exact(&mut [0; 4])?;")]),
 ("codec-cmyk", "C22", [(DEC, "PhotometricInterpretation::CMYK => decoder.set_color_transform(jpeg::ColorTransform::CMYK),", "PhotometricInterpretation::CMYK => decoder.set_color_transform(jpeg::ColorTransform::YCCK),")]),
 ("codec-registry", "C22", [(DEC, "registry.insert(Compression::OldDeflate, Box::new(DeflateDecoder) as _);", "registry.insert(Compression::OldDeflate, Box::new(UncompressedDecoder) as _);")]),
 ("codec-lzw-order", "C22", [(DEC, "weezl::BitOrder::Msb, 8", "weezl::BitOrder::Msb, 7")]),
 ("mal-geo-slice", "C23", [(I, "                        .get(value_offset..value_offset + count as usize)\n                        .ok_or(invalid_geo_keys(\"a string", "                        .get(value_offset..(value_offset + count as usize).min(geo_ascii_params.len()))\n                        .or(Some(&geo_ascii_params[value_offset..]))\n                        .ok_or(invalid_geo_keys(\"a string")]),
 ("mal-geo-double", "C23", [(I, "let value = if count == 1 {\n                        TagValue::Double(values[0])", "let value = if count <= 1 {\n                        TagValue::Double(values[0])")]),
 ("mal-cursor", "C23", [(F, "            .checked_add(length)\n            .ok_or(TiffError::IntSizeError)?;", "            + length;")]),
 ("mal-capacity", "C23", [(R, "HashMap::with_capacity(self.tag_count.min(MAX_INITIAL_CAPACITY) as usize)", "HashMap::with_capacity(self.tag_count as usize)")]),
 ("mal-tile-index", "C24", [(I, "let offset = *tile_offsets.get(idx)?;\n                let byte_count = *tile_byte_counts.get(idx)?;", "let offset = *tile_offsets.get(idx)?;\n                let byte_count = tile_byte_counts[idx];")]),
 ("mal-hdiff-zero", "C24", [(P, "if row_stride == 0 || row_stride % word_size != 0", "if row_stride % word_size != 0")]),
 ("mal-tables", "C24", [(DEC, "jpeg_tables.len().checked_sub(2).ok_or_else(|| {\n                AsyncTiffError::General(\"JPEGTables is shorter than its EOI marker\".to_string())\n            })?;", "jpeg_tables.len() - 2;")]),
 ("mal-bool-short", "C24", [(A, "if data.len() < required_bytes {", "if data.len() + 1 < required_bytes {")]),
 # second batch: larger edits, several sites, faults and histories
 ("b2-cache-unlock-trim", "C08", [(C, """        // Perform the fetch while holding mutex
        // (this is OK because the mutex is async)
        let bytes = self.inner.fetch(fetch_range).await?;

        // Now append safely
        cache.append_buffer(bytes);
""", """        // Don't hold the lock while waiting for the network
        drop(cache);
        let bytes = self.inner.fetch(fetch_range).await?;
        let mut cache = self.cache.lock().await;

        // Another task may have appended in the meantime
        let have = (cache.len - start_len).min(bytes.len() as u64) as usize;
        cache.append_buffer(bytes.slice(have..));
""")]),
 ("b2-cache-reserve", "C07", [(C, """        let bytes = self.inner.fetch(fetch_range).await?;

        // Now append safely
        cache.append_buffer(bytes);
""", """        cache.len += fetch_size;
        let bytes = self.inner.fetch(fetch_range).await?;

        // Now append safely
        cache.len -= fetch_size;
        cache.append_buffer(bytes);
""")]),
 ("b2-cache-stale-on-error", "C07", [(C, """        let bytes = self.inner.fetch(fetch_range).await?;
""", """        let bytes = match self.inner.fetch(fetch_range).await {
            Ok(bytes) => bytes,
            // Answer from what is held if the range has at least started
            Err(_) if range.start < start_len => return Ok(cache.slice(range.start..start_len)),
            Err(err) => return Err(err),
        };
""")]),
 ("b2-cache-cap", "C08", [(C, "            (existing_len as f64 * self.multiplier).round() as u64\n", "            ((existing_len as f64 * self.multiplier).round() as u64).min(1 << 26)\n")]),
 ("b2-head-case", "C09", [(R, "if magic_bytes == Bytes::from_static(b\"II\") {", "if magic_bytes.eq_ignore_ascii_case(b\"II\") {")]),
 ("b2-head-zero", "C09", [(R, "            next_ifd_offset: Some(first_ifd_location),", "            next_ifd_offset: (first_ifd_location != 0).then_some(first_ifd_location),")]),
 ("b2-chain-take", "C10", [(R, "        if let Some(ifd_start) = self.next_ifd_offset {\n            let ifd_reader =", "        if let Some(ifd_start) = self.next_ifd_offset.take() {\n            let ifd_reader =")]),
 ("b2-chain-visited-32", "C10", [(R, "let mut visited = HashSet::new();", "let mut visited = HashSet::<u32>::new();"), (R, "if !visited.insert(offset) {", "if !visited.insert(offset as u32) {")]),
 ("b2-chain-limit", "C10", [(R, "            ifds.push(ifd);\n        }\n        Ok(ifds)", "            ifds.push(ifd);\n            if ifds.len() >= 4096 {\n                break;\n            }\n        }\n        Ok(ifds)")]),
 ("b2-chain-entry-wrap", "C10", [(R, "        self.ifd_entry_byte_size\n            .checked_mul(tag_idx)\n            .and_then(|size| size.checked_add(self.tag_count_byte_size))\n            .and_then(|size| size.checked_add(self.ifd_start_offset))\n            .ok_or(TiffError::IntSizeError.into())", "        u32::try_from(self.ifd_entry_byte_size * tag_idx + self.tag_count_byte_size)\n            .ok()\n            .and_then(|size| self.ifd_start_offset.checked_add((size as u16) as u64))\n            .ok_or(TiffError::IntSizeError.into())")]),
 ("b2-tile-dedup", "C16", [(I, "                let buffers = reader.get_byte_ranges(ranges).await?;\n                Ok(buffers.into_iter().map(CompressedBytes::Chunky).collect())", "                let mut unique = ranges.clone();\n                unique.dedup();\n                let buffers = reader.get_byte_ranges(unique.clone()).await?;\n                Ok(ranges\n                    .iter()\n                    .filter_map(|r| unique.iter().position(|u| u.end == r.end).map(|i| CompressedBytes::Chunky(buffers[i].clone())))\n                    .collect())")]),
 ("b2-tile-zip-drop", "C16", [(I, "                        let band_bytes: Vec<Bytes> = flat_iter.by_ref().take(n).collect();", "                        let band_bytes: Vec<Bytes> = flat_iter.by_ref().filter(|b| !b.is_empty()).take(n).collect();")]),
 ("b2-tile-sparse", "C15", [(I, "                let end = offset.checked_add(byte_count)?;\n                Some(TileByteRange::Chunky(offset..end))", "                if offset == 0 {\n                    return None;\n                }\n                let end = offset.checked_add(byte_count)?;\n                Some(TileByteRange::Chunky(offset..end))")]),
 ("b2-tile-count-f32", "C15", [(I, "(self.image_width as f64 / self.tile_width? as f64).ceil()", "(self.image_width as f32 / self.tile_width? as f32).ceil()")]),
 ("b2-tile-count-trunc", "C15", [(I, "        let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();", "        let x_count = (((self.image_width as i32) + (self.tile_width? as i32) - 1) / (self.tile_width? as i32)) as f64;")]),
 ("b2-decode-bands", "C17", [(T, "                for band_data in band_bytes {\n", "                for band_data in band_bytes.iter().take(samples) {\n")]),
 ("b2-decode-empty-band", "C17", [(T, "                for band_data in band_bytes {\n", "                for band_data in band_bytes.iter().filter(|b| !b.is_empty()) {\n")]),
 ("b2-decode-tables-first", "C17", [(T, "                let mut result = Vec::new();\n", "                let mut result = Vec::new();\n                let mut tables = self.jpeg_tables.as_deref();\n"), (T, "                        self.jpeg_tables.as_deref(),\n                        1,", "                        tables.take(),\n                        1,")]),
 ("b2-decode-default", "C17", [(T, "            .get(&self.compression_method)\n", "            .get(&self.compression_method)\n            .or_else(|| decoder_registry.as_ref().get(&Compression::None))\n")]),
 ("b2-reader-take", "C18", [(RD, "        if read != to_read {\n            return Err(AsyncTiffError::EndOfFile(to_read, read));\n        }", "        if read != to_read && read == 0 {\n            return Err(AsyncTiffError::EndOfFile(to_read, read));\n        }")]),
 ("b2-reader-sorted", "C18", [(RD, "        let ranges = ranges\n            .into_iter()\n            .map(|r| r.start as _..r.end as _)\n            .collect::<Vec<_>>();", "        let mut ranges = ranges\n            .into_iter()\n            .map(|r| r.start as _..r.end as _)\n            .collect::<Vec<std::ops::Range<u64>>>();\n        ranges.sort_by_key(|r| r.start >> 20);")]),
 ("b2-reader-status", "C18", [(RD, "            .send()\n            .await?\n            .error_for_status()?;", "            .send()\n            .await?;\n        let response = if response.status().is_server_error() { response.error_for_status()? } else { response };")]),
 ("b2-size-zero", "C20", [(TF, ".filter(|&o| o != 0)", ".filter(|&o| o > 8)")]),
 ("b2-size-first-zero", "C20", [(TF, "                    .filter(|&o| o != 0)\n", "                    .skip_while(|&o| o == 0)\n")]),
 ("b2-lzw-lsb-fallback", "C22", [(DEC, "weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8)", "if buffer.first() == Some(&0) { weezl::decode::Decoder::new(weezl::BitOrder::Lsb, 8) } else { weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8) }")]),
 ("b2-deflate-raw", "C22", [(DEC, "        let mut decoder = ZlibDecoder::new(Cursor::new(buffer));\n        let mut buf = Vec::new();\n        decoder.read_to_end(&mut buf)?;\n        Ok(buf)\n    }\n}\n\n/// A decoder for the JPEG", "        let mut decoder = ZlibDecoder::new(Cursor::new(buffer)).take(1 << 24);\n        let mut buf = Vec::new();\n        decoder.read_to_end(&mut buf)?;\n        Ok(buf)\n    }\n}\n\n/// A decoder for the JPEG")]),
 ("b2-zstd-frame", "C22", [(DEC, "impl Decoder for ZstdDecoder", "impl Decoder for ZstdDecoder"), (DEC, "        let mut decoder = zstd::Decoder::new(Cursor::new(buffer))?;\n        let mut buf = Vec::new();\n        decoder.read_to_end(&mut buf)?;\n        Ok(buf)\n    }\n}\n\n// https", "        let mut decoder = zstd::Decoder::new(Cursor::new(buffer))?.single_frame();\n        let mut buf = Vec::new();\n        decoder.read_to_end(&mut buf)?;\n        Ok(buf)\n    }\n}\n\n// https")]),
 ("b2-lerc-type", "C22", [(DEC, "2 => decode_lerc::<i16>(&lerc_blob, &info),", "2 => decode_lerc::<u16>(&lerc_blob, &info),")]),
 ("b2-webp-alpha", "C22", [(DEC, "rgba.push(255); // opaque alpha", "rgba.push(if chunk == [0, 0, 0] { 0 } else { 255 });")]),
 ("b2-jpeg-black", "C22", [(DEC, "        PhotometricInterpretation::WhiteIsZero\n        | PhotometricInterpretation::BlackIsZero", "        PhotometricInterpretation::WhiteIsZero"), (DEC, "        PhotometricInterpretation::YCbCr => {", "        PhotometricInterpretation::YCbCr | PhotometricInterpretation::BlackIsZero => {")]),
 ("b2-registry-old-deflate", "C22", [(DEC, "        registry.insert(Compression::OldDeflate, Box::new(DeflateDecoder) as _);\n", "")]),
]
