//! Types for working with [Skel] data in .nusktb files.
//!
//! The data for each bone is collected into a [BoneData] struct with a single transformation matrix.
//! The missing matrices are recalculated when converting to [Skel] based on the hierarchy of [BoneData].
//!
//! # File Differences
//! Unmodified files are not guaranteed to be binary identical after saving.
//! Calculated matrices may differ from the originals due to slightly different algorithms and floating point errors.
//! These errors are very small in practice but may cause gameplay differences such as online desyncs.
use std::{
    collections::HashSet,
    convert::{TryFrom, TryInto},
};

use glam::Mat4;
pub use ssbh_lib::formats::skel::BillboardType;
use ssbh_lib::{
    formats::skel::{Skel, SkelBoneEntry, SkelEntryFlags},
    Matrix4x4, Version,
};

use thiserror::Error;

#[cfg(feature = "serde")]
use serde::{Deserialize, Serialize};

// TODO: Add methods to SkelData to find the index of a given bone?

/// The data associated with a [Skel] file.
/// The supported version is 1.0.
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
#[cfg_attr(feature = "arbitrary", derive(arbitrary::Arbitrary))]
#[derive(Debug, PartialEq, Clone)]
pub struct SkelData {
    pub major_version: u16,
    pub minor_version: u16,
    pub bones: Vec<BoneData>,
}

/// Data associated with a [SkelBoneEntry].
///
/// Only the bone's transformation relative to its parent is stored.
/// The missing transformation matrices are calculated when converting to [Skel]
/// based on the hierarchy of [BoneData].
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
#[cfg_attr(feature = "arbitrary", derive(arbitrary::Arbitrary))]
#[derive(Debug, PartialEq, Clone)]
pub struct BoneData {
    /// The name of the bone.
    pub name: String,
    /// A matrix in column-major order representing the transform of the bone relative to its parent.
    /// For using existing world transformations, see [calculate_relative_transform].
    pub transform: [[f32; 4]; 4],
    /// The index of the parent bone in the bones collection or [None] if this is a root bone with no parents.
    pub parent_index: Option<usize>,
    // TODO: Make this an Option for clarity?
    pub billboard_type: BillboardType,
    // TODO: Flags?
}

pub mod error {
    use super::*;
    use thiserror::Error;

    /// Errors while creating an [Skel] from [SkelData].
    #[derive(Debug, Error)]
    pub enum Error {
        /// Creating a [Skel] file for the given version is not supported.
        #[error(
            "creating a version {}.{} skel is not supported",
            major_version,
            minor_version
        )]
        UnsupportedVersion {
            major_version: u16,
            minor_version: u16,
        },

        /// The parent index of a bone can't be stored in a signed 16-bit integer.
        #[error(
            "parent index {} for bone {:?} exceeds the maximum supported value of {}",
            parent_index,
            bone,
            i16::MAX
        )]
        ParentIndexOutOfRange { bone: String, parent_index: usize },

        /// An error occurred while calculating a transformation matrix.
        #[error(transparent)]
        BoneTransform(#[from] BoneTransformError),

        /// An error occurred while writing data to a buffer.
        #[error(transparent)]
        Io(#[from] std::io::Error),
    }
}

/// Calculates the transform of `world_transform` relative to `parent_world_transform`.
/// If `parent_world_transform` is [None], a copy of `world_transform` is returned.
/// All matrices are assumed to be in column-major order.
/// # Examples
/// The simplest case is when the parent transform is the identity matrix,
/// so the result is simply the passed in `world_transform`.
/**
```rust
# use ssbh_data::skel_data::calculate_relative_transform;
// A column-major transform with a scale (2, 4, 8) and translation (1, 2, 3).
let world_transform = [
    [2.0, 0.0, 0.0, 0.0],
    [0.0, 4.0, 0.0, 0.0],
    [0.0, 0.0, 8.0, 0.0],
    [1.0, 2.0, 3.0, 1.0],
];
// The 4x4 identity matrix.
let parent_world_transform = [
    [1.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0, 0.0],
    [0.0, 0.0, 1.0, 0.0],
    [0.0, 0.0, 0.0, 1.0],
];

assert_eq!(
    world_transform,
    calculate_relative_transform(
        &world_transform,
        Some(&parent_world_transform)
    )
);
```
*/
pub fn calculate_relative_transform(
    world_transform: &[[f32; 4]; 4],
    parent_world_transform: Option<&[[f32; 4]; 4]>,
) -> [[f32; 4]; 4] {
    match parent_world_transform {
        Some(parent_world_transform) => {
            // Given two world transforms, solve for the relative transform.
            let world = Mat4::from_cols_array_2d(world_transform);
            let parent_world = Mat4::from_cols_array_2d(parent_world_transform);
            (world * parent_world.inverse()).to_cols_array_2d()
        }
        None => *world_transform,
    }
}

fn inv_transform(m: &[[f32; 4]; 4]) -> Matrix4x4 {
    let m = Mat4::from_cols_array_2d(m);
    let inv = m.inverse().to_cols_array_2d();
    Matrix4x4::from_cols_array(&inv)
}

impl TryFrom<SkelData> for Skel {
    type Error = error::Error;

    fn try_from(data: SkelData) -> Result<Self, Self::Error> {
        Self::try_from(&data)
    }
}

impl TryFrom<&SkelData> for Skel {
    type Error = error::Error;

    fn try_from(data: &SkelData) -> Result<Self, Self::Error> {
        let world_transforms = data
            .bones
            .iter()
            .map(|b| data.calculate_world_transform(b))
            .collect::<Result<Vec<_>, _>>()?;

        Ok(Skel::V10 {
            bone_entries: data
                .bones
                .iter()
                .enumerate()
                .map(|(i, b)| {
                    Ok(SkelBoneEntry {
                        name: b.name.clone().into(),
                        index: i as u16,
                        parent_index: match b.parent_index {
                            Some(index) => i16::try_from(index).map_err(|_| {
                                error::Error::ParentIndexOutOfRange {
                                    bone: b.name.clone(),
                                    parent_index: index,
                                }
                            })?,
                            None => -1,
                        },
                        // TODO: Preserve or calculate flags?
                        flags: SkelEntryFlags {
                            unk1: 1,
                            billboard_type: b.billboard_type,
                        },
                    })
                })
                .collect::<Result<Vec<_>, error::Error>>()?
                .into(),
            world_transforms: world_transforms
                .iter()
                .map(Matrix4x4::from_cols_array)
                .collect(),
            inv_world_transforms: world_transforms.iter().map(inv_transform).collect(),
            transforms: data
                .bones
                .iter()
                .map(|b| Matrix4x4::from_cols_array(&b.transform))
                .collect(),
            inv_transforms: data
                .bones
                .iter()
                .map(|b| inv_transform(&b.transform))
                .collect(),
        })
    }
}

impl From<Skel> for SkelData {
    fn from(skel: Skel) -> Self {
        Self::from(&skel)
    }
}

impl From<&Skel> for SkelData {
    fn from(skel: &Skel) -> Self {
        let (major_version, minor_version) = skel.major_minor_version();
        Self {
            major_version,
            minor_version,
            // TODO: Add additional validation for mismatched array lengths?
            bones: match skel {
                Skel::V10 {
                    bone_entries,
                    transforms,
                    ..
                } => bone_entries
                    .elements
                    .iter()
                    .zip(transforms.elements.iter())
                    .map(|(b, t)| create_bone_data(b, t))
                    .collect(),
            },
        }
    }
}

fn create_bone_data(b: &SkelBoneEntry, transform: &Matrix4x4) -> BoneData {
    BoneData {
        name: b.name.to_string_lossy(),
        transform: transform.to_cols_array(),
        parent_index: b.parent_index.try_into().ok(),
        billboard_type: b.flags.billboard_type,
    }
}

impl SkelData {
    /// Calculates the world transform for `bone` by accumulating the transform with the parents transform recursively.
    /// Returns the resulting matrix in column-major order.
    /// # Examples
    /// For mesh objects with a parent bone and no influences,
    /// the object is transformed by the parent bone's world transform.
    /**
    ```rust
    # use ssbh_data::skel_data::{BoneData, SkelData, BillboardType};
    # let data = SkelData {
    #     major_version: 1,
    #     minor_version: 0,
    #     bones: vec![BoneData {
    #         name: "Head".to_string(),
    #         transform: [[0f32; 4]; 4],
    #         parent_index: None,
    #         billboard_type: BillboardType::Disabled,
    #     }],
    # };
    let parent_bone_name = "Head";
    if let Some(parent_bone) = data.bones.iter().find(|b| b.name == parent_bone_name) {
        let world_transform = data.calculate_world_transform(&parent_bone);
        // Transform the object using the matrix...
    }
    ```
    */
    pub fn calculate_world_transform(
        &self,
        bone: &BoneData,
    ) -> Result<[[f32; 4]; 4], BoneTransformError> {
        let mut bone = bone;
        let mut transform = Mat4::from_cols_array_2d(&bone.transform);

        // Check for cycles by keeping track of previously visited locations.
        let mut visited = HashSet::new();

        // Accumulate transforms by travelling up the bone hierarchy.
        while let Some(parent_index) = bone.parent_index {
            if !visited.insert(parent_index) {
                return Err(BoneTransformError::CycleDetected {
                    index: parent_index,
                });
            }
            if let Some(parent_bone) = self.bones.get(parent_index) {
                let parent_transform = Mat4::from_cols_array_2d(&parent_bone.transform);
                transform = parent_transform * transform;
                bone = parent_bone;
            } else {
                break;
            }
        }

        // Save the result in column-major order.
        Ok(transform.to_cols_array_2d())
    }
}

/// Errors while calculating [BoneData] transformation matrices.
#[derive(Debug, Error)]
pub enum BoneTransformError {
    #[error(
        "cyclical bone chains are not supported. A cycle was detected at index {}",
        index
    )]
    CycleDetected { index: usize },
}
